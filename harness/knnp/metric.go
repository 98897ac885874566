package main

import (
	"math"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
)

// metric is a reference distance beside golearn's.
type metric struct {
	name string
	impl pairwise.PairwiseDistanceFunc
	ref  func(x, y []float64) float64
}

func euclid(x, y []float64) float64 {
	s := 0.0
	for i := range x {
		s += (x[i] - y[i]) * (x[i] - y[i])
	}
	return math.Sqrt(s)
}

func manhattan(x, y []float64) float64 {
	s := 0.0
	for i := range x {
		s += math.Abs(x[i] - y[i])
	}
	return s
}

func chebyshev(x, y []float64) float64 {
	s := 0.0
	for i := range x {
		if d := math.Abs(x[i] - y[i]); d > s {
			s = d
		}
	}
	return s
}

func canberra(x, y []float64) float64 {
	s := 0.0
	for i := range x {
		if d := math.Abs(x[i]) + math.Abs(y[i]); d > 0 {
			s += math.Abs(x[i]-y[i]) / d
		}
	}
	return s
}

func dot(x, y []float64) float64 {
	s := 0.0
	for i := range x {
		s += x[i] * y[i]
	}
	return s
}

// cosine is 1 - cos of the angle, computed on normalised vectors.
func cosine(x, y []float64) float64 {
	return 1 - dot(x, y)/(math.Sqrt(dot(x, x))*math.Sqrt(dot(y, y)))
}

var metrics = []metric{
	{"euclidean", pairwise.NewEuclidean(), euclid},
	{"manhattan", pairwise.NewManhattan(), manhattan},
	{"chebyshev", pairwise.NewChebyshev(), chebyshev},
	{"canberra", pairwise.NewCranberra(), canberra},
	{"cosine", pairwise.NewCosine(), cosine},
}

func near(a, b, rel, abs float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}
