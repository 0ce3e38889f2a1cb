package packet

// Announced tells which media a stream start announces.
func Announced(t *Types) (video, audio bool) { return t.types&1 != 0, t.types&2 != 0 }
