module verif/mc

go 1.25

require github.com/jart/gosip v0.0.0

replace github.com/jart/gosip => ../.work/sut/gosip
