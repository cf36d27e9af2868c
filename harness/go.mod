module gpgverif/harness

go 1.16

require (
	github.com/atotto/clipboard v0.1.2
	github.com/spiegel-im-spiegel/gpgpdump v0.0.0
	github.com/spf13/cobra v1.1.3
	github.com/spf13/pflag v1.0.5
	github.com/spiegel-im-spiegel/fetch v0.2.3
	github.com/spiegel-im-spiegel/gocli v0.10.4
	golang.org/x/crypto v0.0.0-20210220033148-5ea612d1eb83
)

replace github.com/spiegel-im-spiegel/gpgpdump => /repo
