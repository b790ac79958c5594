module addrsverif

go 1.21

require gopkg.in/addrs.v1 v1.0.0

replace gopkg.in/addrs.v1 => /repo
