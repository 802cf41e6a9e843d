module github.com/blocktree/go-owcrypt

go 1.13

require (
	github.com/drand/kyber v1.1.4
	github.com/phoreproject/bls v0.0.0-20200525203911-a88a5ae26844
	golang.org/x/crypto v0.0.0-20200728195943-123391ffb6de
	golang.org/x/sys v0.0.0-20200812155832-6a926be9bd1d
)
