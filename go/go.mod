module verif

go 1.24

require github.com/waj334/tinygo-mqtt v0.0.0

replace github.com/waj334/tinygo-mqtt => /repo
