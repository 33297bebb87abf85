module vengine

go 1.23
