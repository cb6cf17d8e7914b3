// Command genmc runs the plugin on many generator requests built from one
// descriptor set: genmc plugin descriptors jobs.json out.json
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type job struct {
	Files []string `json:"files"`
	Param string   `json:"param"`
	// Keep asks for the contents, not only their hashes.
	Keep bool `json:"keep"`
	// Plugin replaces the plugin under test (for its oracle).
	Plugin string `json:"plugin"`
	// Order is for plugins built with mapord.
	Order int `json:"order"`
}

type outFile struct {
	Name, Sha string
	Content   string `json:",omitempty"`
	Insertion string `json:",omitempty"`
}

type result struct {
	Exit  int       `json:"exit"`
	Err   string    `json:"err"`
	Files []outFile `json:"files"`
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	plugin := os.Args[1]
	raw, err := os.ReadFile(os.Args[2])
	must(err)
	var set descriptorpb.FileDescriptorSet
	must(proto.UnmarshalOptions{DiscardUnknown: false}.Unmarshal(raw, &set))
	byName := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range set.File {
		byName[f.GetName()] = f
	}
	raw, err = os.ReadFile(os.Args[3])
	must(err)
	var jobs []job
	must(json.Unmarshal(raw, &jobs))
	res := make([]result, len(jobs))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				res[i] = run(plugin, byName, jobs[i])
			}
		}()
	}
	for i := range jobs {
		next <- i
	}
	close(next)
	wg.Wait()
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(os.Args[4], b, 0o644))
}

func run(plugin string, byName map[string]*descriptorpb.FileDescriptorProto, j job) (r result) {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: j.Files, Parameter: proto.String(j.Param),
		CompilerVersion: &pluginpb.Version{Major: proto.Int32(3), Minor: proto.Int32(21), Patch: proto.Int32(12)}}
	seen := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		f := byName[n]
		if f == nil {
			panic("no descriptor of " + n)
		}
		for _, d := range f.Dependency {
			add(d)
		}
		req.ProtoFile = append(req.ProtoFile, f)
	}
	for _, n := range j.Files {
		add(n)
	}
	in, err := proto.Marshal(req)
	must(err)
	if j.Plugin != "" {
		plugin = j.Plugin
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, plugin)
	cmd.Env = append(os.Environ(), fmt.Sprintf("PGVMC_ORDER=%d", j.Order))
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		r.Exit = 1
		if x, ok := err.(*exec.ExitError); ok {
			r.Exit = x.ExitCode()
		}
		r.Err = errb.String()
		if len(r.Err) > 1500 {
			r.Err = r.Err[:700] + " ... " + r.Err[len(r.Err)-700:]
		}
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out.Bytes(), &resp); err != nil && r.Exit == 0 {
		r.Exit, r.Err = 98, "the response does not parse: "+err.Error()
		return
	}
	if resp.Error != nil {
		r.Exit, r.Err = 99, resp.GetError()
	}
	for _, f := range resp.File {
		h := sha256.Sum256([]byte(f.GetContent()))
		o := outFile{Name: f.GetName(), Sha: hex.EncodeToString(h[:8]), Insertion: f.GetInsertionPoint()}
		if j.Keep {
			o.Content = f.GetContent()
		}
		r.Files = append(r.Files, o)
	}
	return
}
