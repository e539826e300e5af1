module verif/harness

go 1.26

require (
	gitee.com/coco/go808 v0.0.0
	github.com/funny/link v0.0.0-20190805113223-98708916287b
	github.com/shopspring/decimal v0.0.0-20200227202807-02e2044944cc
	github.com/sirupsen/logrus v1.4.2
	golang.org/x/text v0.3.2
)

require (
	github.com/mattn/go-colorable v0.1.6 // indirect
	github.com/mattn/go-isatty v0.0.12 // indirect
	github.com/mgutz/ansi v0.0.0-20170206155736-9520e82c474b // indirect
	github.com/x-cray/logrus-prefixed-formatter v0.5.2 // indirect
	golang.org/x/crypto v0.0.0-20200323165209-0ec3e9974c59 // indirect
	golang.org/x/sys v0.0.0-20200223170610-d5e6a3e2c0ae // indirect
)

replace gitee.com/coco/go808 => /repo

replace github.com/funny/link => ../third_party/link
