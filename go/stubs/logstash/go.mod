module github.com/bshuster-repo/logrus-logstash-hook

go 1.20

require github.com/sirupsen/logrus v1.8.1
