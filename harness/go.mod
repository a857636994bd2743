module verif

go 1.23

require (
	github.com/labstack/echo v3.3.10+incompatible
	github.com/raa0121/GoBCDice v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/dgrijalva/jwt-go v3.2.0+incompatible // indirect
	github.com/labstack/gommon v0.3.0 // indirect
	github.com/mattn/go-colorable v0.1.2 // indirect
	github.com/mattn/go-isatty v0.0.9 // indirect
	github.com/seehuhn/mt19937 v0.0.0-20180715112136-cc7708819361 // indirect
	github.com/valyala/bytebufferpool v1.0.0 // indirect
	github.com/valyala/fasttemplate v1.0.1 // indirect
	golang.org/x/crypto v0.0.0-20190701094942-4def268fd1a4 // indirect
	golang.org/x/net v0.0.0-20190404232315-eb5bcb51f2a3 // indirect
	golang.org/x/sys v0.0.0-20190813064441-fde4db37ae7a // indirect
	golang.org/x/text v0.3.0 // indirect
)

replace github.com/raa0121/GoBCDice => /repo
