module verifdriver

go 1.16

require github.com/twuillemin/modes v0.0.0

replace github.com/twuillemin/modes => /repo
