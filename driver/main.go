package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// number turns the text of a number with decimals in thousandths ("#", n), so that they are compared as numbers; a whole
// number is its text
func number(s string) (interface{}, interface{}) {
	if !decimal.MatchString(s) {
		return s, int64(0)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return s, int64(0)
	}
	if n, ok := milli(f, 1000).(int64); ok && n%1000 == 0 {
		return strconv.FormatInt(n/1000, 10), int64(0)
	}
	return "#", milli(f, 1000)
}

var decimal = regexp.MustCompile(`^-?[0-9]+\.[0-9]+$`)

func enc(b *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case int:
		b.WriteString(strconv.Itoa(x))
	case float64:
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case string:
		j, _ := json.Marshal(x)
		b.Write(j)
	case []byte:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Itoa(int(e)))
		}
		b.WriteByte(']')
	case []interface{}:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			enc(b, e)
		}
		b.WriteByte(']')
	default:
		panic(fmt.Sprintf("can not encode %T", v))
	}
}

func record(op string, args tuple, out tuple) []byte {
	b := &bytes.Buffer{}
	r := append(tuple{op}, args...)
	enc(b, append(r, out))
	b.WriteByte('\n')
	return b.Bytes()
}

func evalStream(r io.Reader, w io.Writer) error {
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	bw := bufio.NewWriter(w)
	defer bw.Flush()
	for sc.Scan() {
		if len(strings.TrimSpace(sc.Text())) == 0 {
			continue
		}
		var rec []interface{}
		if err := json.Unmarshal(sc.Bytes(), &rec); err != nil {
			return err
		}
		op := rec[0].(string)
		args := rec[1:]
		if _, err := bw.Write(record(op, args, Eval(op, args))); err != nil {
			return err
		}
	}
	return sc.Err()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver gen <family> <seed> <tier> <shards> <dir> | driver eval <in >out")
		os.Exit(2)
	}
	var err error
	switch os.Args[1] {
	case "eval":
		err = evalStream(os.Stdin, os.Stdout)
	case "gen":
		err = genMain(os.Args[2:])
	case "scan":
		err = scanMain(os.Args[2:])
	case "receive":
		err = receiveStream(os.Stdin, os.Stdout)
	case "cli":
		err = cliMain(os.Args[2:])
	default:
		err = fmt.Errorf("unknown command %v", os.Args[1])
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
