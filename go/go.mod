module vgo

go 1.26.0

require (
	github.com/icon-project/goloop v0.0.0
	github.com/pkg/errors v0.9.1
	github.com/sirupsen/logrus v1.9.3
)

require (
	contrib.go.opencensus.io/exporter/prometheus v0.4.2
	github.com/bshuster-repo/logrus-logstash-hook v0.4.1
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.2.0
	github.com/evalphobia/logrus_fluent v0.5.4
	github.com/gofrs/uuid v4.4.0+incompatible
	github.com/syndtr/goleveldb v1.0.0
	github.com/vmihailenco/msgpack/v4 v4.3.13
	go.opencensus.io v0.24.0
	golang.org/x/crypto v0.21.0
	golang.org/x/sync v0.24.0
	golang.org/x/sys v0.49.0
	gopkg.in/natefinch/lumberjack.v2 v2.2.1
)

replace (
	contrib.go.opencensus.io/exporter/prometheus => ./stubs/prometheus
	github.com/bshuster-repo/logrus-logstash-hook => ./stubs/logstash
	github.com/decred/dcrd/dcrec/secp256k1/v4 => ./stubs/secp256k1
	github.com/evalphobia/logrus_fluent => ./stubs/fluent
	github.com/gofrs/uuid => ./stubs/uuid
	github.com/icon-project/goloop => /repo
	github.com/pkg/errors => github.com/pkg/errors v0.8.1
	github.com/sirupsen/logrus => github.com/sirupsen/logrus v1.8.1
	github.com/syndtr/goleveldb => ./stubs/leveldb
	github.com/vmihailenco/msgpack/v4 => ./stubs/msgpack
	go.opencensus.io => ./stubs/opencensus
	golang.org/x/crypto => golang.org/x/crypto v0.0.0-20210921155107-089bfa567519
	gopkg.in/natefinch/lumberjack.v2 => ./stubs/lumberjack
)
