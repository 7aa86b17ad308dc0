// gendrv runs the repository's generators on a schema: gendrv SCHEMA.json GENERATOR OUT
package main

import (
	"fmt"
	"os"

	g1 "github.com/loopholelabs/polyglot/generator/golang"
	r1 "github.com/loopholelabs/polyglot/generator/rust"
	g2 "github.com/loopholelabs/polyglot/v2/generator/golang"
	r2 "github.com/loopholelabs/polyglot/v2/generator/rust"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type generator interface {
	UnmarshalRequest(buf []byte) (*pluginpb.CodeGeneratorRequest, error)
	Generate(req *pluginpb.CodeGeneratorRequest) (*pluginpb.CodeGeneratorResponse, error)
	MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte, error)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	d, err := os.ReadFile(os.Args[1])
	check(err)
	f := new(descriptorpb.FileDescriptorProto)
	check(protojson.Unmarshal(d, f))
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{f.GetName()}, ProtoFile: []*descriptorpb.FileDescriptorProto{f}}
	var g generator
	switch os.Args[2] {
	case "go1":
		g = g1.New()
	case "go2":
		g = g2.New()
	case "rs1":
		g = r1.New()
		req.Parameter = proto.String("privacy=public")
	case "rs2":
		g = r2.New()
		req.Parameter = proto.String("privacy=public")
	}
	// as the plugins do: through the wire form of request and response
	buf, err := proto.Marshal(req)
	check(err)
	req, err = g.UnmarshalRequest(buf)
	check(err)
	res, err := g.Generate(req)
	check(err)
	buf, err = g.MarshalResponse(res)
	check(err)
	res = new(pluginpb.CodeGeneratorResponse)
	check(proto.Unmarshal(buf, res))
	if res.Error != nil {
		fmt.Fprintln(os.Stderr, res.GetError())
		os.Exit(1)
	}
	if len(res.File) != 1 {
		fmt.Fprintln(os.Stderr, "generated", len(res.File), "files")
		os.Exit(1)
	}
	check(os.WriteFile(os.Args[3], []byte(res.File[0].GetContent()), 0o644))
}
