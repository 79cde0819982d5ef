module verif/pure

go 1.24

require github.com/jsimonetti/go-artnet v0.0.0

replace github.com/jsimonetti/go-artnet => /repo
