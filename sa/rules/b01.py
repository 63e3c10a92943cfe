"""Construction of the blocking hierarchy (Morton codes, common prefixes, radix tree, boxes, depth).  Every function is compared with a
reference body modulo loops: same loop-carried state, same exit conditions, same results."""
from ..loops import AlgL, spec_compare, raise_condition, Canon
from ..spec import equiv, explain, spec_graph
from ..vf import analyse

B = "artist.raytracing.blocking."
EXPAND = """
    if (integers < 0).any() or (integers > 1023).any():
        raise ValueError("range")
    if integers.dtype is not torch.int32:
        raise TypeError("dtype")
    x = integers & 0x3FF
    x = (x | (x << 16)) & 0x030000FF
    x = (x | (x << 8)) & 0x0300F00F
    x = (x | (x << 4)) & 0x030C30C3
    x = (x | (x << 2)) & 0x09249249
    return x
"""
MORTON = """
    low = coordinates.min(dim=0).values
    extent = (coordinates.max(dim=0).values - low).max()
    q = ((coordinates - low) * (1023 / (extent + epsilon))).to(torch.int32)
    return (expand_bits(q[:, 1]) << 2) | (expand_bits(q[:, 0]) << 1) | expand_bits(q[:, 2])
"""
LCP = """
    device = get_device(device=device)
    ok = (j >= 0) & (j < codes.shape[0])
    out = torch.full_like(i, -1, device=device)
    if ok.any():
        x = torch.zeros_like(i, device=device)
        x[ok] = codes[i[ok]] ^ codes[j[ok]]
        nz = x != 0
        msb = torch.full_like(i, -1, device=device)
        if nz.any():
            lz = torch.zeros_like(x[nz], dtype=torch.int32, device=device)
            for s in [16, 8, 4, 2, 1]:
                m = x[nz] >> (32 - s) == 0
                lz = lz + s * m.to(torch.int32)
                x[nz] = torch.where(m, x[nz] << s, x[nz])
            msb[nz] = 31 - lz
        out[ok] = torch.where(x[ok] == 0, 30, 29 - msb[ok])
    return out
"""
BUILD = """
    device = get_device(device=device)
    n = blocking_primitives_corners.shape[0]
    ids = torch.arange(n, dtype=torch.int32, device=device)
    if n == 0:
        return {"left": torch.empty((0,), dtype=torch.int32, device=device), "right": torch.empty((0,), dtype=torch.int32, device=device),
                "aabb_min": torch.empty((0, 3), device=device), "aabb_max": torch.empty((0, 3), device=device),
                "is_leaf": torch.empty((0,), dtype=torch.bool, device=device), "primitive_index": torch.empty((0,), dtype=torch.int32, device=device)}
    pts = blocking_primitives_corners[..., :3]
    codes, order = torch.sort(morton_codes(coordinates=pts.mean(dim=1), epsilon=1e-6))
    if (codes[1:] == codes[:-1]).any():
        codes = ids
    if n > 1:
        after = longest_common_prefix(codes=codes, i=ids, j=ids + 1, device=device)
        before = longest_common_prefix(codes=codes, i=ids, j=ids - 1, device=device)
    else:
        after = torch.tensor([-1], device=device)
        before = torch.tensor([-1], device=device)
    d = (after > before).to(torch.int32) * 2 - 1
    dmin = torch.min(before, after)
    bound = torch.full((n,), 2, device=device)
    while True:
        more = longest_common_prefix(codes=codes, i=ids, j=ids + bound * d, device=device) > dmin
        if not more.any():
            break
        bound = torch.where(more, bound * 2, bound)
    length = torch.zeros(n, dtype=torch.int32, device=device)
    t = bound // 2
    while t.max() >= 1:
        length = torch.where(longest_common_prefix(codes=codes, i=ids, j=ids + (length + t) * d, device=device) > dmin, length + t, length)
        t = t // 2
    end = ids + length * d
    dnode = longest_common_prefix(codes=codes, i=ids, j=end, device=device)
    split = torch.zeros(n, dtype=torch.int32, device=device)
    t = (length + 1) // 2
    while t.max() >= 1:
        split = torch.where(longest_common_prefix(codes=codes, i=ids, j=ids + (split + t) * d, device=device) > dnode, split + t, split)
        if t.max() == 1:
            break
        t = (t + 1) // 2
    gamma = ids + split * d + torch.clamp(d, max=0)
    left = torch.full((2 * n - 1,), -1, dtype=torch.int32, device=device)
    right = torch.full((2 * n - 1,), -1, dtype=torch.int32, device=device)
    low = torch.zeros((2 * n - 1, 3), dtype=torch.float32, device=device)
    high = torch.zeros((2 * n - 1, 3), dtype=torch.float32, device=device)
    leaf = torch.zeros((2 * n - 1,), dtype=torch.bool, device=device)
    prim = torch.full((2 * n - 1,), -1, dtype=torch.int32, device=device)
    k = n - 1
    inner = torch.arange(0, k, dtype=torch.int64, device=device)
    low[k:] = pts.min(dim=1).values[order]
    high[k:] = pts.max(dim=1).values[order]
    leaf[k:] = True
    prim[k:] = order.to(torch.int32)
    lc = torch.where(torch.minimum(ids, end)[:k] == gamma[:k], (k + gamma[:k]).to(torch.int32), gamma[:k].to(torch.int32))
    rc = torch.where(torch.maximum(ids, end)[:k] == gamma[:k] + 1, (k + gamma[:k] + 1).to(torch.int32), (gamma[:k] + 1).to(torch.int32))
    left[inner] = lc.to(dtype=torch.int32, device=device)
    right[inner] = rc.to(dtype=torch.int32, device=device)
    leaf[inner] = False
    done = torch.zeros(k, dtype=torch.bool, device=device)
    ld = torch.ones_like(lc, dtype=torch.bool, device=device)
    rd = torch.ones_like(rc, dtype=torch.bool, device=device)
    lm = (lc >= 0) & (lc < k)
    rm = (rc >= 0) & (rc < k)
    rounds = 0
    while not done.all() and rounds < k * 2:
        ld[lm] = done[lc[lm]]
        rd[rm] = done[rc[rm]]
        ready = (~done) & ld & rd
        if not ready.any():
            break
        x = torch.nonzero(ready, as_tuple=True)[0].to(device)
        low[x] = torch.minimum(low[lc[x]], low[rc[x]])
        high[x] = torch.maximum(high[lc[x]], high[rc[x]])
        done[x] = True
        rounds += 1
    return {"left": left, "right": right, "aabb_min": low, "aabb_max": high, "is_leaf": leaf, "primitive_index": prim}
"""
DEPTH = """
    todo = [(0, 1)]
    best = 1
    while todo:
        node, d = todo.pop()
        best = max(best, d)
        a = int(left[node].item())
        b = int(right[node].item())
        if a >= 0:
            todo.append((a, d + 1))
        if b >= 0:
            todo.append((b, d + 1))
    return best
"""


def check(repo, R):
    R.rule("B01.codes", "Morton codes interleave ten bits per axis of coordinates scaled by one common factor")
    R.rule("B01.prefix", "the common prefix of two codes counts leading equal bits, and indices outside the list give -1")
    R.rule("B01.tree", "ranges, splits, children, leaves and boxes follow the radix-tree construction; equal codes are replaced by ranks")
    R.rule("B01.depth", "the stack depth is the longest root-to-leaf path")
    A = AlgL()
    g, s = spec_compare(repo, R, "B01.codes", B + "expand_bits", EXPAND, A=A)
    x = equiv(A, raise_condition(g, A, Canon(g.interp, A)), raise_condition(s, A, Canon(s.interp, A)))
    f = repo.func(B + "expand_bits")
    R.ob("B01.codes", "expand_bits.raises", x is None, f"{f.file}:{f.line}", "" if x is None else "condition of the error: " + explain(x)[:400])
    spec_compare(repo, R, "B01.codes", B + "morton_codes", MORTON, A=A, opaque=(B + "expand_bits",))
    spec_compare(repo, R, "B01.prefix", B + "longest_common_prefix", LCP, A=A)
    spec_compare(repo, R, "B01.tree", B + "build_linear_bounding_volume_hierarchies", BUILD, A=A, opaque=(B + "longest_common_prefix", B + "morton_codes"))
    spec_compare(repo, R, "B01.depth", B + "compute_lbvh_max_depth", DEPTH, A=A)
