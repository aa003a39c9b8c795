// Shared definitions and trusted contracts of library functions.

// --- UTF-8 (trusted: the language's range over strings and unicode/utf8 agree
// with these facts about character starts)
sfunc cst(s: string, i: int): bool
sfunc utf8ok(s: string): bool
sfunc isletter(r: int32): bool
sfunc isdigit(r: int32): bool

contract utf8.Valid(d) (r)
  trusted
  why library: validity is a function of the bytes
  pure
  ensures r == utf8ok(str(d))

contract unicode.IsLetter(r) (b)
  trusted
  why library: a function of the character
  pure
  ensures b == isletter(r)

contract unicode.IsDigit(r) (b)
  trusted
  why library: a function of the character
  pure
  ensures b == isdigit(r)

// --- arithmetic
lemma[mul_mono]
  hide
  vars n: int, a: int, b: int
  hyp n >= 0 && a < b
  concl n * a + n <= n * b
lemma[div_uniq]
  hide
  vars x: int, n: int, q: int, r: int
  apply mul_mono(n, q, x / n)
  apply mul_mono(n, x / n, q)
  hyp n >= 1 && 0 <= r && r < n && x == n * q + r
  concl x / n == q && x % n == r
