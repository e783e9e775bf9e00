module mutgen

go 1.18
