include bits.inc
package ldpc
func TransactionData.XOR(t, t2)
  requires present(t2)
  modifies *t
  loop 1
    invariant forall k int {t[k]} {old(t[k])} :: 8 * $k <= k && k < 128 ==> t[k] == old(t[k])
    invariant forall k int, u int {hbit(t[k], u)} :: 0 <= k && k < 8 * $k && 0 <= u && u < 8 ==> (hbit(t[k], u) <==> xor(old(hbit(t[k], u)), old(hbit(t2[k], u))))
  end
  loop 1 or
    invariant forall k int {t[k]} {old(t[k])} :: $k <= k && k < 128 ==> t[k] == old(t[k])
    invariant forall k int, u int {hbit(t[k], u)} :: 0 <= k && k < $k && 0 <= u && u < 8 ==> (hbit(t[k], u) <==> xor(old(hbit(t[k], u)), old(hbit(t2[k], u))))
  end
  ensures bytewise: forall k int, u int {hbit(t[k], u)} :: 0 <= k && k < 128 && 0 <= u && u < 8 ==> (hbit(t[k], u) <==> xor(old(hbit(t[k], u)), old(hbit(t2[k], u))))
