module github.com/evalphobia/logrus_fluent

go 1.20

require github.com/sirupsen/logrus v1.8.1
