package zzsimrt

import (
	"context"
	"errors"

	"github.com/google/generative-ai-go/genai"
	"google.golang.org/api/option"
)

// AIService simulates the remote generative AI service below the genai client.
type AIService struct {
	Connect  func(ctx context.Context) error
	Generate func(ctx context.Context, model string, parts []genai.Part) (*genai.GenerateContentResponse, error)
	Close    func() error
}

// AI is the simulated service of the current run.
var AI *AIService

// GenaiClient replaces genai.Client.
type GenaiClient struct{ closed bool }

// GenaiModel replaces genai.GenerativeModel; its configuration methods are the
// real ones.
type GenaiModel struct {
	*genai.GenerativeModel
	name string
	c    *GenaiClient
}

func GenaiNewClient(ctx context.Context, opts ...option.ClientOption) (*GenaiClient, error) {
	Point(0)
	if AI == nil {
		return nil, errors.New("no AI service")
	}
	if AI.Connect != nil {
		if err := AI.Connect(ctx); err != nil {
			return nil, err
		}
	}
	return &GenaiClient{}, nil
}

func (c *GenaiClient) Close() error {
	Point(0)
	c.closed = true
	if AI != nil && AI.Close != nil {
		return AI.Close()
	}
	return nil
}

func (c *GenaiClient) GenerativeModel(name string) *GenaiModel {
	return &GenaiModel{GenerativeModel: &genai.GenerativeModel{}, name: name, c: c}
}

func (m *GenaiModel) GenerateContent(ctx context.Context, parts ...genai.Part) (*genai.GenerateContentResponse, error) {
	Point(0)
	if m.c.closed {
		return nil, errors.New("client is closed")
	}
	return AI.Generate(ctx, m.name, parts)
}
