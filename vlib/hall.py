"""Space groups from their Hall symbols: an independent statement of the operators.

`ops(symbol)` returns the closed set of operators as exact integers: a set of
(rotation rows as 9 ints, translation as 3 ints in twelfths... kept in 1/24).
"""
D = 24  # translations are in 1/24ths, so that an origin shift of 1/8 is exact

_T = {"a": (12, 0, 0), "b": (0, 12, 0), "c": (0, 0, 12), "n": (12, 12, 12), "u": (6, 0, 0),
      "v": (0, 6, 0), "w": (0, 0, 6), "d": (6, 6, 6)}
_Z = {1: (1, 0, 0, 0, 1, 0, 0, 0, 1), 2: (-1, 0, 0, 0, -1, 0, 0, 0, 1), 3: (0, -1, 0, 1, -1, 0, 0, 0, 1),
      4: (0, -1, 0, 1, 0, 0, 0, 0, 1), 6: (1, -1, 0, 1, 0, 0, 0, 0, 1)}
_LAT = {"P": [(0, 0, 0)], "A": [(0, 0, 0), (0, 12, 12)], "B": [(0, 0, 0), (12, 0, 12)],
        "C": [(0, 0, 0), (12, 12, 0)], "I": [(0, 0, 0), (12, 12, 12)],
        "F": [(0, 0, 0), (0, 12, 12), (12, 0, 12), (12, 12, 0)],
        "R": [(0, 0, 0), (16, 8, 8), (8, 16, 16)]}


def _cyc(m, axis):
    """A z-axis matrix turned to act along another axis (cyclic permutation)."""
    p = {"z": (0, 1, 2), "x": (1, 2, 0), "y": (2, 0, 1)}[axis]
    out = [0] * 9
    for i in range(3):
        for j in range(3):
            out[3 * p[i] + p[j]] = m[3 * i + j]
    return tuple(out)


def mul(s, t):
    a, u = s
    b, v = t
    r = tuple(sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3))
    w = tuple((sum(a[3 * i + k] * v[k] for k in range(3)) + u[i]) % D for i in range(3))
    return r, w


def shift(op, v):
    """The operator after moving the origin: V op V^-1, V a translation by v (1/D)."""
    r, t = op
    return r, tuple((t[i] + v[i] - sum(r[3 * i + k] * v[k] for k in range(3))) % D for i in range(3))


def generators(symbol):
    body, sh = symbol, (0, 0, 0)
    if "(" in symbol:
        body, rest = symbol.split("(")
        sh = tuple(int(x) * D // 12 for x in rest.rstrip(")").split())
    lat, *toks = body.split()
    one = _Z[1]
    gens = [(one, t) for t in _LAT[lat[-1]]]
    if lat[0] == "-":
        gens.append((tuple(-x for x in one), (0, 0, 0)))
    prev = None
    for k, tok in enumerate(toks):
        neg = tok.startswith("-")
        tok = tok.lstrip("-")
        n = int(tok[0])
        tok = tok[1:]
        axis = None
        if tok and tok[0] in "xyz'\"*":
            axis, tok = tok[0], tok[1:]
        if axis is None:
            if k == 0 or n == 1:
                axis = "z"
            elif k == 1 and n == 2:
                axis = "x" if prev in (2, 4) else "'"
            elif k == 2 and n == 3:
                axis = "*"
            else:
                axis = "z"
        if axis == "'":
            m = (0, -1, 0, -1, 0, 0, 0, 0, -1)
        elif axis == '"':
            m = (0, 1, 0, 1, 0, 0, 0, 0, -1)
        elif axis == "*":
            m = (0, 0, 1, 1, 0, 0, 0, 1, 0)
        else:
            m = _cyc(_Z[n], axis)
        t = [0, 0, 0]
        for ch in tok:
            if ch.isdigit():
                t["xyz".index(axis)] += int(ch) * D // n
            else:
                t = [p + q for p, q in zip(t, _T[ch])]
        if neg:
            m = tuple(-x for x in m)
        gens.append((m, tuple(x % D for x in t)))
        prev = n
    return [shift(g, sh) for g in gens]


def close(gens):
    seen = set(gens)
    todo = list(seen)
    while todo:
        x = todo.pop()
        for g in gens:
            y = mul(x, g)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


_cache = {}


def ops(symbol):
    if symbol not in _cache:
        _cache[symbol] = frozenset(close(generators(symbol)))
    return _cache[symbol]


def group(sg, setting=1):
    s = HALL[sg].split(" / ")
    return ops(s[setting - 1])


_RAW = """1 P 1; 2 -P 1; 3 P 2y; 4 P 2yb; 5 C 2y; 6 P -2y; 7 P -2yc; 8 C -2y; 9 C -2yc; 10 -P 2y; 11 -P 2yb; 12 -C 2y;
13 -P 2yc; 14 -P 2ybc; 15 -C 2yc; 16 P 2 2; 17 P 2c 2; 18 P 2 2ab; 19 P 2ac 2ab; 20 C 2c 2; 21 C 2 2; 22 F 2 2; 23 I 2 2;
24 I 2b 2c; 25 P 2 -2; 26 P 2c -2; 27 P 2 -2c; 28 P 2 -2a; 29 P 2c -2ac; 30 P 2 -2bc; 31 P 2ac -2; 32 P 2 -2ab; 33 P 2c -2n;
34 P 2 -2n; 35 C 2 -2; 36 C 2c -2; 37 C 2 -2c; 38 A 2 -2; 39 A 2 -2b; 40 A 2 -2a; 41 A 2 -2ab; 42 F 2 -2; 43 F 2 -2d; 44 I 2 -2;
45 I 2 -2c; 46 I 2 -2a; 47 -P 2 2; 48 P 2 2 -1n / -P 2ab 2bc; 49 -P 2 2c; 50 P 2 2 -1ab / -P 2ab 2b; 51 -P 2a 2a; 52 -P 2a 2bc;
53 -P 2ac 2; 54 -P 2a 2ac; 55 -P 2 2ab; 56 -P 2ab 2ac; 57 -P 2c 2b; 58 -P 2 2n; 59 P 2 2ab -1ab / -P 2ab 2a; 60 -P 2n 2ab;
61 -P 2ac 2ab; 62 -P 2ac 2n; 63 -C 2c 2; 64 -C 2bc 2; 65 -C 2 2; 66 -C 2 2c; 67 -C 2b 2; 68 C 2 2 -1bc / -C 2b 2bc; 69 -F 2 2;
70 F 2 2 -1d / -F 2uv 2vw; 71 -I 2 2; 72 -I 2 2c; 73 -I 2b 2c; 74 -I 2b 2; 75 P 4; 76 P 4w; 77 P 4c; 78 P 4cw; 79 I 4; 80 I 4bw;
81 P -4; 82 I -4; 83 -P 4; 84 -P 4c; 85 P 4ab -1ab / -P 4a; 86 P 4n -1n / -P 4bc; 87 -I 4; 88 I 4bw -1bw / -I 4ad; 89 P 4 2;
90 P 4ab 2ab; 91 P 4w 2c; 92 P 4abw 2nw; 93 P 4c 2; 94 P 4n 2n; 95 P 4cw 2c; 96 P 4nw 2abw; 97 I 4 2; 98 I 4bw 2bw; 99 P 4 -2;
100 P 4 -2ab; 101 P 4c -2c; 102 P 4n -2n; 103 P 4 -2c; 104 P 4 -2n; 105 P 4c -2; 106 P 4c -2ab; 107 I 4 -2; 108 I 4 -2c;
109 I 4bw -2; 110 I 4bw -2c; 111 P -4 2; 112 P -4 2c; 113 P -4 2ab; 114 P -4 2n; 115 P -4 -2; 116 P -4 -2c; 117 P -4 -2ab;
118 P -4 -2n; 119 I -4 -2; 120 I -4 -2c; 121 I -4 2; 122 I -4 2bw; 123 -P 4 2; 124 -P 4 2c; 125 P 4 2 -1ab / -P 4a 2b;
126 P 4 2 -1n / -P 4a 2bc; 127 -P 4 2ab; 128 -P 4 2n; 129 P 4ab 2ab -1ab / -P 4a 2a; 130 P 4ab 2n -1ab / -P 4a 2ac; 131 -P 4c 2;
132 -P 4c 2c; 133 P 4n 2c -1n / -P 4ac 2b; 134 P 4n 2 -1n / -P 4ac 2bc; 135 -P 4c 2ab; 136 -P 4n 2n; 137 P 4n 2n -1n / -P 4ac 2a;
138 P 4n 2ab -1n / -P 4ac 2ac; 139 -I 4 2; 140 -I 4 2c; 141 I 4bw 2bw -1bw / -I 4bd 2; 142 I 4bw 2aw -1bw / -I 4bd 2c; 143 P 3;
144 P 31; 145 P 32; 146 R 3; 147 -P 3; 148 -R 3; 149 P 3 2; 150 P 3 2"; 151 P 31 2 (0 0 4); 152 P 31 2"; 153 P 32 2 (0 0 2);
154 P 32 2"; 155 R 3 2"; 156 P 3 -2"; 157 P 3 -2; 158 P 3 -2"c; 159 P 3 -2c; 160 R 3 -2"; 161 R 3 -2"c; 162 -P 3 2; 163 -P 3 2c;
164 -P 3 2"; 165 -P 3 2"c; 166 -R 3 2"; 167 -R 3 2"c; 168 P 6; 169 P 61; 170 P 65; 171 P 62; 172 P 64; 173 P 6c; 174 P -6;
175 -P 6; 176 -P 6c; 177 P 6 2; 178 P 61 2 (0 0 5); 179 P 65 2 (0 0 1); 180 P 62 2 (0 0 4); 181 P 64 2 (0 0 2); 182 P 6c 2c; 183 P 6 -2;
184 P 6 -2c; 185 P 6c -2; 186 P 6c -2c; 187 P -6 2; 188 P -6c 2; 189 P -6 -2; 190 P -6c -2c; 191 -P 6 2; 192 -P 6 2c; 193 -P 6c 2;
194 -P 6c 2c; 195 P 2 2 3; 196 F 2 2 3; 197 I 2 2 3; 198 P 2ac 2ab 3; 199 I 2b 2c 3; 200 -P 2 2 3; 201 P 2 2 3 -1n / -P 2ab 2bc 3;
202 -F 2 2 3; 203 F 2 2 3 -1d / -F 2uv 2vw 3; 204 -I 2 2 3; 205 -P 2ac 2ab 3; 206 -I 2b 2c 3; 207 P 4 2 3; 208 P 4n 2 3; 209 F 4 2 3;
210 F 4d 2 3; 211 I 4 2 3; 212 P 4acd 2ab 3; 213 P 4bd 2ab 3; 214 I 4bd 2c 3; 215 P -4 2 3; 216 F -4 2 3; 217 I -4 2 3;
218 P -4n 2 3; 219 F -4c 2 3; 220 I -4bd 2c 3; 221 -P 4 2 3; 222 P 4 2 3 -1n / -P 4a 2bc 3; 223 -P 4n 2 3;
224 P 4n 2 3 -1n / -P 4bc 2bc 3; 225 -F 4 2 3; 226 -F 4c 2 3; 227 F 4d 2 3 -1d / -F 4vw 2vw 3; 228 F 4d 2 3 -1cd / -F 4cvw 2vw 3;
229 -I 4 2 3; 230 -I 4bd 2c 3"""
HALL = {}
for _e in _RAW.replace("\n", " ").split(";"):
    _n, _s = _e.strip().split(" ", 1)
    HALL[int(_n)] = _s
