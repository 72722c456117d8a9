module zzmc

go 1.19
