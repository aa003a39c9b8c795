// C18: trigrams

sfunc tclass(r: int): int
definition[tclass]
  vars r: int
  trig tclass(r)
  concl tclass(r) == (48 <= r && r <= 57 ? r - 48 : (97 <= r && r <= 122 ? r - 97 + 10 : (65 <= r && r <= 90 ? r - 65 + 10 : 36)))
sfunc tshift(t: int, c: int): int
definition[tshift]
  vars t: int, c: int
  trig tshift(t, c)
  concl tshift(t, c) == (t % 1369) * 37 + c
define t3(a: int, b: int, c: int): int = a * 1369 + b * 37 + c
define tchar(c: int): int = c <= 9 ? 48 + c : (c <= 35 ? 97 + c - 10 : 95)

contract trigram.Letter(r) (c)
  ensures[class] c == tclass(r)

contract trigram.Unletter(c) (r)
  ensures r == tchar(c)

contract (trigram.T).Shift(t, c) (n)
  requires c <= 36
  ensures[shift] n == tshift(t, c)
  ensures[below] n < 50653

contract trigram.Zero() (t)
  ensures t == t3(36, 36, 36)

// shifting in c keeps the last two classes
lemma[shift_t3]
  vars a: int, b: int, c: int, d: int
  hyp 0 <= a && a <= 36 && 0 <= b && b <= 36 && 0 <= c && c <= 36 && 0 <= d && d <= 36
  concl tshift(t3(a, b, c), d) == t3(b, c, d)

// three classes from anywhere
lemma[three_shifts]
  vars t: int, a: int, b: int, c: int
  hyp 0 <= t && t < 65536 && 0 <= a && a <= 36 && 0 <= b && b <= 36 && 0 <= c && c <= 36
  concl tshift(tshift(tshift(t, a), b), c) == t3(a, b, c)

// the number determines the classes
lemma[t3_inj]
  vars a: int, b: int, c: int, x: int, y: int, z: int
  hyp 0 <= a && a <= 36 && 0 <= b && b <= 36 && 0 <= c && c <= 36
  hyp 0 <= x && x <= 36 && 0 <= y && y <= 36 && 0 <= z && z <= 36
  hyp t3(a, b, c) == t3(x, y, z)
  concl a == x && b == y && c == z

lemma[tchar_inj]
  vars a: int, b: int
  hyp 0 <= a && a <= 36 && 0 <= b && b <= 36 && tchar(a) == tchar(b)
  concl a == b

contract (trigram.T).String(t) (s)
  requires t < 50653
  ensures[rendering] len(s) == 3 && s[0] == tchar(t / 1369) && s[1] == tchar(t / 37 % 37) && s[2] == tchar(t % 37)

// the function given to VisitToken is only assumed to be called in order: the
// ghost vlog[0..vlen) lists the trigrams it was given
ghost global.vlog: [int]int
ghost global.vlen: int
contract func func(trigram.T)(f, t) ()
  trusted
  why a visitor does not change the tokens or the visiting function's state; what it is given is recorded in order
  modifies vlog, vlen
  ensures vlen == old(vlen) + 1 && vlog == old(vlog)[old(vlen) := t]

// trigrams of token tok from start
define tokn(tok: token.T): int = tok.Tag == token.Other ? 1 : (tok.Tag == token.Word ? len(tok.Lit) : 0)
define tokc(tok: token.T, k: int): int = tok.Tag == token.Other ? 36 : tclass(tok.Lit[k])

contract trigram.VisitToken(start, tok, fn) (tri)
  requires tok.Tag == token.Word || tok.Tag == token.Other
  modifies vlog, vlen
  inv i: int, t: trigram.T ::: i >= 0 && vlen == old(vlen) + i && i <= len(tok.Lit) && (i == 0 ? t == start : t == vlog[vlen - 1])
  inv i: int ::: (forall k: int, l: int {vlog[k], vlog[l]} :: old(vlen) < l && l < old(vlen) + i && k == l - 1 ==> vlog[l] == tshift(vlog[k], tclass(tok.Lit[l - old(vlen)])))
  inv i: int ::: (i > 0 ==> vlog[old(vlen)] == tshift(start, tclass(tok.Lit[0])))
  inv i: int ::: (forall k: int {vlog[k]} :: k < old(vlen) ==> vlog[k] == old(vlog)[k])
  ensures[count] vlen == old(vlen) + tokn(tok)
  ensures[kept] forall k: int {vlog[k]} :: k < old(vlen) ==> vlog[k] == old(vlog)[k]
  ensures[first] tokn(tok) > 0 ==> vlog[old(vlen)] == tshift(start, tokc(tok, 0))
  ensures[next] forall k: int, l: int {vlog[k], vlog[l]} :: old(vlen) < l && l < vlen && k == l - 1 ==> vlog[l] == tshift(vlog[k], tokc(tok, l - old(vlen)))
  ensures[last] tri == (tokn(tok) > 0 ? vlog[vlen - 1] : start)

contract trigram.FromToken(dst, start, tok) (tri, res)
  requires tok.Tag == token.Word || tok.Tag == token.Other
  requires base(tok.Lit) != base(dst)
  modifies elems(dst)
  inv i: int, t: trigram.T, d: []trigram.T ::: len(d) == len(dst) + i && 0 <= i && i <= len(tok.Lit) && (i == 0 ? t == start : t == d[len(d) - 1])
  inv i: int, d: []trigram.T ::: (forall k: int, l: int {d[k], d[l]} :: len(dst) < l && l < len(d) && k == l - 1 ==> d[l] == tshift(d[k], tclass(tok.Lit[l - len(dst)])))
  inv i: int, d: []trigram.T ::: (i > 0 ==> d[len(dst)] == tshift(start, tclass(tok.Lit[0])))
  inv d: []trigram.T ::: (forall k: int, l: int {d[k], old(dst[l])} :: 0 <= k && k < len(dst) && l == k ==> d[k] == old(dst[l]))
  ensures[count] len(res) == len(dst) + tokn(tok)
  ensures[kept] forall k: int, l: int {res[k], old(dst[l])} :: 0 <= k && k < len(dst) && l == k ==> res[k] == old(dst[l])
  ensures[first] tokn(tok) > 0 ==> res[len(dst)] == tshift(start, tokc(tok, 0))
  ensures[next] forall k: int, l: int {res[k], res[l]} :: len(dst) < l && l < len(res) && k == l - 1 ==> res[l] == tshift(res[k], tokc(tok, l - len(dst)))
  ensures[last] tri == (tokn(tok) > 0 ? res[len(res) - 1] : start)

// two sequences that start alike and follow the same classes are equal: what
// is visited is what is collected
lemma[same_seq]
  vars a: [int]int, b: [int]int, c: [int]int, n: int
  induct n
  fix
  hyp a[0] == b[0]
  hyp forall k: int, l: int {a[k], a[l]} :: 0 < l && l <= n && k == l - 1 ==> a[l] == tshift(a[k], c[l])
  hyp forall k: int, l: int {b[k], b[l]} :: 0 < l && l <= n && k == l - 1 ==> b[l] == tshift(b[k], c[l])
  concl a[n] == b[n]
