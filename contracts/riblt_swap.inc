// two neighbouring symbols may be swapped: the aggregates do not depend on the order
lemma mpar_local(S ints, H ints, S2 ints, H2 ints, T ints, k int, n int, b int)
  requires n >= 0
  requires forall j int {S2[j]} {H2[j]} :: 0 <= j && j < n ==> S2[j] == S[j] && H2[j] == H[j]
  ensures mpar(S2, T, H2, k, n, b) == mpar(S, T, H, k, n, b)
  induction n
  noaxiom
lemma mpar_swap(S ints, T ints, H ints, k int, n int, b int, i int)
  requires 0 <= i && i + 2 <= n
  ensures mpar(upd(upd(S, i, S[i + 1]), i + 1, S[i]), T, upd(upd(H, i, H[i + 1]), i + 1, H[i]), k, n, b) == mpar(S, T, H, k, n, b)
  induction n
  from i + 2
  hint mpar_local(S, H, upd(upd(S, i, S[i + 1]), i + 1, S[i]), upd(upd(H, i, H[i + 1]), i + 1, H[i]), T, k, i, b)
  hint mpar(S, T, H, k, i + 1, b) == xor(mpar(S, T, H, k, i, b), mapped(H[i], k) && sbit(cont(T, S[i]), H[i], b))
  noaxiom
lemma mcnt_local(H ints, H2 ints, k int, n int)
  requires n >= 0
  requires forall j int {H2[j]} :: 0 <= j && j < n ==> H2[j] == H[j]
  ensures mcnt(H2, k, n) == mcnt(H, k, n)
  induction n
  noaxiom
lemma mcnt_swap(H ints, k int, n int, i int)
  requires 0 <= i && i + 2 <= n
  ensures mcnt(upd(upd(H, i, H[i + 1]), i + 1, H[i]), k, n) == mcnt(H, k, n)
  induction n
  from i + 2
  hint mcnt_local(H, upd(upd(H, i, H[i + 1]), i + 1, H[i]), k, i)
  hint mcnt(H, k, i + 1) == mcnt(H, k, i) + ite(mapped(H[i], k), 1, 0)
  noaxiom

