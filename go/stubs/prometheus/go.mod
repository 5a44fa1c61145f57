module contrib.go.opencensus.io/exporter/prometheus

go 1.20

require go.opencensus.io v0.24.0
