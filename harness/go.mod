module amtharness

go 1.18

require github.com/wdamron/amt v0.0.0

replace github.com/wdamron/amt => /repo
