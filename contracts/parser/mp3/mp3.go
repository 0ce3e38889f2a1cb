package mp3

import vp "github.com/moggle-mog/goav/zz_vp"

// Any is an arbitrary parser.
func Any() *Parser { return &Parser{samplingFrequency: vp.Int("mp3.rate")} }
