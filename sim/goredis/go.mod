module github.com/redis/go-redis/v9

go 1.24
