module pgvmc

go 1.25

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
)

replace github.com/envoyproxy/protoc-gen-validate => /repo
