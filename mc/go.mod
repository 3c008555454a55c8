module verif.local/mc

go 1.21

require github.com/jcorbin/anansi v0.0.0

replace github.com/jcorbin/anansi => /repo
