"""Reference model of the repetition code: result format, syndrome changes and exhaustive matching."""
import networkx as nx


def process(raw, d, t):
    """formatted outcome 'code round_{T-1} ... round_0' -> 'first last  changes_0 ... changes_T'."""
    parts = raw.split(' ')
    code, rounds = parts[0], parts[1:][::-1]          # rounds in time order
    assert len(rounds) == t
    seq = [[0] * (d - 1)] + [[int(c) for c in r] for r in rounds] + [[int(code[j] != code[j + 1]) for j in range(d - 1)]]
    changes = [''.join(str(a ^ b) for a, b in zip(x, y)) for x, y in zip(seq, seq[1:])]
    return code[0] + ' ' + code[-1] + '  ' + ' '.join(changes)


def unprocess(string, d, t):
    logs, changes = string.split('  ')
    first = int(logs.split(' ')[0])
    changes = changes.split(' ')
    cur = [0] * (d - 1)
    rounds = []
    for ch in changes:
        cur = [a ^ int(b) for a, b in zip(cur, ch)]
        rounds.append(list(cur))
    code = [first]
    for s in rounds[-1]:
        code.append(code[-1] ^ s)
    return ' '.join([''.join(map(str, code))] + [''.join(map(str, r)) for r in rounds[:-1][::-1]])


def join(first, last, on, d, t):
    on = set(on)
    return first + ' ' + last + '  ' + ' '.join(''.join('1' if (r, i) in on else '0' for i in range(d - 1)) for r in range(t + 1))


def nodes(string):
    out = []
    for typ, part in enumerate(string.split('  ')):
        for rd, elems in enumerate(part.split(' ')):
            for i, e in enumerate(elems):
                if e == '1':
                    out.append((typ, rd, i))
    return out


def best_logicals(graph, first, last, on):
    """({corrected logical strings of all minimum matchings}, minimum distance): every element is paired with another one
    or with the boundary that is nearest to it."""
    on = [(1,) + tuple(e) for e in on]
    dist = {e: nx.single_source_dijkstra_path_length(graph, e, weight='distance') for e in on}
    bnd = [(0, 0, 0), (0, 1, 0)]
    best = [float('inf'), set()]

    def rec(rest, cost, flips):
        if cost > best[0] + 1e-7:
            return
        if not rest:
            if cost < best[0] - 1e-7:
                best[0], best[1] = cost, set()
            best[1].add(flips)
            return
        a, rest = rest[0], rest[1:]
        for k, b in enumerate(rest):
            rec(rest[:k] + rest[k + 1:], cost + dist[a][b], flips)
        ds = [dist[a][b] for b in bnd]
        for k in (0, 1):
            if ds[k] <= min(ds) + 1e-7:
                f = list(flips)
                f[k] ^= 1
                rec(rest, cost + ds[k], tuple(f))
    rec(on, 0.0, (0, 0))
    return {'%d %d' % (int(first) ^ f[0], int(last) ^ f[1]) for f in best[1]}, best[0]
