module urnverif

go 1.21

require github.com/leodido/go-urn v0.0.0

replace github.com/leodido/go-urn => /repo
