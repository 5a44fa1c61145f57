module go.opencensus.io

go 1.20
