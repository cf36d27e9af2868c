module gpgverif/mutate

go 1.21
