package core

import (
	"context"
	"fmt"
	"net"
	"sync"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"google.golang.org/grpc"
)

// StandInMaster is a master that answers jobs as it is told, for one client
// at a time.
type StandInMaster struct {
	Addr string

	mu   sync.Mutex
	resp *pb.NewJobResponse
	err  error
	got  []*pb.NewJobRequest
}

// TheStandInMaster serves on the loopback address of this process.
var TheStandInMaster = sync.OnceValue(func() *StandInMaster {
	lis, err := net.Listen("tcp", Loopback()+":0")
	if err != nil {
		Infra("listen: %v", err)
	}
	m := &StandInMaster{Addr: lis.Addr().String()}
	s := grpc.NewServer(grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30))
	pb.RegisterMasterServer(s, m)
	go s.Serve(lis)
	return m
})

// Answer sets the next answers and forgets the requests so far.
func (m *StandInMaster) Answer(r *pb.NewJobResponse, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.resp, m.err, m.got = r, err, nil
}

// Requests returns the jobs asked for since the last Answer.
func (m *StandInMaster) Requests() []*pb.NewJobRequest {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.got
}

func (m *StandInMaster) NewJob(_ context.Context, r *pb.NewJobRequest) (*pb.NewJobResponse, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.got = append(m.got, r)
	return m.resp, m.err
}

func (m *StandInMaster) RegisterAgent(context.Context, *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	return nil, fmt.Errorf("no agents here")
}
