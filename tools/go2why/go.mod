module go2why

go 1.23
