module github.com/flu-network/client

go 1.17
