module verif/harness

go 1.25

require (
	github.com/go-faker/faker/v4 v4.6.1
	github.com/kaptinlin/jsonschema v0.6.1
	github.com/ryanolee/go-chaff v0.0.0
	github.com/santhosh-tekuri/jsonschema/v6 v6.0.2
	pgregory.net/rapid v1.3.0
)

require (
	github.com/go-json-experiment/json v0.0.0-20251027170946-4849db3c2f7e // indirect
	github.com/goccy/go-yaml v1.18.0 // indirect
	github.com/kaptinlin/go-i18n v0.2.0 // indirect
	github.com/kaptinlin/jsonpointer v0.4.6 // indirect
	github.com/kaptinlin/messageformat-go v0.4.6 // indirect
	github.com/thoas/go-funk v0.9.3 // indirect
	golang.org/x/exp v0.0.0-20251125195548-87e1e737ad39 // indirect
	golang.org/x/text v0.31.0 // indirect
)

replace github.com/ryanolee/go-chaff => /repo
