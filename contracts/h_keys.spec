// Dotted keys: the key of the first n parts of a name is determined by the parts ignoring case, and
// different names have different keys.

ufun b64(s string) string
ufun unb64(s string) string
ufun nodot(s string) bool
ufun dotl(s string) string
ufun dotr(s string) string

fn dk(name []string, n int) string = n <= 0 ? "" : (n == 1 ? "" : dk(name, n-1) + ".") + b64(lower(name[n-1]))

func nameutil.MakeDottedKeyIgnoreCase
  props C08 C07 C10
  requires length <= len(name)
  ensures result == dk(name, length)
  loop 1
    invariant keySb == dk(name, i)

// different names have different keys
lemma dkinj(a []string S, b []string T, n int, m int)
  props C08 C10
  requires 1 <= n && 1 <= m
  requires dk(a, n) == dk(b, m)
  ensures n == m
  ensures forall i in 0..n :: lower(a[i]) == lower(b[i])
  decreases n
  ih a, b, n-1, m-1

// the key depends on the parts only
lemma dkext(a []string S, b []string T, n int)
  props C08 C10
  requires forall i in 0..n :: lower(a[i]) == lower(b[i])
  ensures dk(a, n) == dk(b, n)
  decreases n
  ih a, b, n-1
