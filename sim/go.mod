module verif/sim

go 1.23

require github.com/NVIDIA/sortedmap v0.0.0

require github.com/NVIDIA/cstruct v0.0.0-20221206222058-cbc877f192d5

replace github.com/NVIDIA/sortedmap => /repo
