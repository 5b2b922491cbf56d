// C07: fountain encoders keep exactly the most recent distinct transactions, in order
load lt iblt ldpc
assume window sizes are not negative
include enc_defs.inc
package lt
func NewEncoder(r, salt, dist, ws) e
  requires ws >= 0
  modifies $hs
  ensures fresh(e)
  ensures empty: len(e.window) == 0 && encW(e)
  ensures params: e.windowSize == ws && e.degreeDist == dist
  ensures salted: e.hasher != nil && hempty(e.hasher) == hkey(bytesOf(salt, 0, 16))


package iblt
func NewEncoder(r, salt, dist, ws) e
  requires ws >= 0
  modifies $hs
  ensures fresh(e)
  ensures empty: len(e.window) == 0 && encW(e)
  ensures params: e.windowSize == ws && e.degreeDist == dist
  ensures salted: e.hasher != nil && hempty(e.hasher) == hkey(bytesOf(salt, 0, 16))


package ldpc
func NewEncoder(salt, dist, ws) e
  requires ws >= 0
  modifies $hs
  ensures fresh(e)
  ensures empty: len(e.window) == 0 && encW(e)
  ensures params: e.windowSize == ws && e.degreeDist == dist
  ensures salted: e.hasher != nil && hempty(e.hasher) == hkey(bytesOf(salt, 0, 16))


include enc_fns.inc for lt
include enc_fns.inc for iblt
include enc_fns.inc for ldpc
