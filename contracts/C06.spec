// C06: reset
load riblt
package riblt

// Every field of an encoder and decoder is either a scalar or a list, and no operation looks
// past the length of a list; a zero value has zero scalars and empty lists.
func Encoder.Reset(e)
  ensures likeNew: cleared(e)

func Decoder.Reset(d)
  ensures likeNew: cleared(d)

func codingWindow.reset(e)
  modifies e.symbols, e.mappings, e.queue, e.nextIdx
  ensures likeNew: cleared(e)
