module gmnverif

go 1.23

require github.com/hymkor/gmnlisp v0.0.0

replace github.com/hymkor/gmnlisp => /repo
