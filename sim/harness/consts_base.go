package main

// Written by `harness consts`.

var baseInts = map[string][]int64{
	"vsa":                                      {4, 8, 12, 16, 25, 27, 32, 63, 64, 120, 128},
	"vsa/cmd/ratelimiter-api":                  {8, 15, 50, 1000},
	"vsa/cmd/tfd-proxy":                        {4, 10, 15, 64, 200, 202, 400, 500, 4096, 8192},
	"vsa/internal/ratelimiter/api":             {200, 204, 400, 429},
	"vsa/internal/ratelimiter/core":            {60},
	"vsa/internal/ratelimiter/persistence":     {16, 32, 256},
	"vsa/internal/ratelimiter/telemetry/churn": {7, 8, 27, 50, 64, 91, 126, 255, 1024},
	"vsa/internal/sinks":                       {10, 20, 26, 64, 420, 1024, 1088, 1090},
	"vsa/plugin/tfd":                           {8, 16, 64, 4096},
}

var baseDurs = map[string][]int64{
	"vsa":                                      {100000},
	"vsa/cmd/ratelimiter-api":                  {100000, 100000000, 5000000000},
	"vsa/cmd/tfd-proxy":                        {2000000, 3000000, 5000000000},
	"vsa/internal/ratelimiter/api":             {5000000000, 10000000000},
	"vsa/internal/ratelimiter/core":            {},
	"vsa/internal/ratelimiter/persistence":     {1000000000, 10000000000},
	"vsa/internal/ratelimiter/telemetry/churn": {5000000000},
	"vsa/internal/sinks":                       {100000000},
	"vsa/plugin/tfd":                           {2000000},
}
