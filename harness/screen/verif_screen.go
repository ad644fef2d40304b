package tcell

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"
)

// NewScreen returns a screen without a terminal. It reads events from file descriptor 3,
// and writes what is on the screen to file descriptor 4 once an event has been handled.
func NewScreen() (Screen, error) {
	return &scripted{
		SimulationScreen: NewSimulationScreen("UTF-8"),
		in:               bufio.NewReader(os.NewFile(3, "events")),
		out:              os.NewFile(4, "screens"),
		state:            idle,
	}, nil
}

const (
	idle    = iota // everything has been handled
	pressed        // a mouse button is down
	waiting        // an event was handed out
)

type scripted struct {
	SimulationScreen
	in    *bufio.Reader
	out   *os.File
	state int
	next  scriptEvent
	ended bool
}

type scriptEvent struct {
	Key    string // name of a special key or a character, or
	Button string // left, middle or right, at
	X, Y   int
	W, H   int // new size
}

var specialKeys = map[string]Key{"tab": KeyTab, "backtab": KeyBacktab, "enter": KeyEnter, "esc": KeyEscape, "save": KeyCtrlS,
	"up": KeyUp, "down": KeyDown, "left": KeyLeft, "right": KeyRight, "pgup": KeyPgUp, "pgdn": KeyPgDn, "home": KeyHome, "end": KeyEnd,
	"backspace": KeyBackspace2, "delete": KeyDelete, "f1": KeyF1}

// handled is no event for the application. Its queue has no room, so it took a previous
// event to its end when PollEvent is called after handing this out.
type handled struct{ EventTime }

func (s *scripted) Init() error {
	if err := s.SimulationScreen.Init(); err != nil {
		return err
	}
	s.read()
	s.SetSize(s.next.W, s.next.H)
	return nil
}

func (s *scripted) read() bool {
	line, err := s.in.ReadBytes('\n')
	if err != nil {
		return false
	}
	s.next = scriptEvent{}
	if err := json.Unmarshal(line, &s.next); err != nil {
		panic(err)
	}
	return true
}

func (s *scripted) Fini() {
	s.ended = true
	s.SimulationScreen.Fini()
}

func (s *scripted) PollEvent() Event {
	if s.ended {
		return nil
	}
	switch s.state {
	case pressed:
		s.state = waiting
		return NewEventMouse(s.next.X, s.next.Y, ButtonNone, ModNone)
	case waiting:
		s.state = idle
		h := &handled{}
		h.SetEventNow()
		return h
	}
	s.show()
	if !s.read() {
		os.Exit(99)
	}
	s.state = waiting
	switch {
	case s.next.Button != "":
		s.state = pressed
		button := Button1
		switch s.next.Button {
		case "right":
			button = Button2
		case "middle":
			button = Button3
		}
		return NewEventMouse(s.next.X, s.next.Y, button, ModNone)
	case s.next.W > 0:
		s.SetSize(s.next.W, s.next.H)
		return NewEventResize(s.next.W, s.next.H)
	}
	k, ok := specialKeys[s.next.Key]
	if !ok {
		return NewEventKey(KeyRune, []rune(s.next.Key)[0], ModNone)
	}
	mod := ModNone
	if k == KeyCtrlS {
		mod = ModCtrl
	}
	return NewEventKey(k, 0, mod)
}

func (s *scripted) show() {
	cells, w, h := s.GetContents()
	rows := make([]string, h)
	for y := 0; y < h; y++ {
		b := strings.Builder{}
		for x := 0; x < w; x++ {
			c := cells[y*w+x]
			if len(c.Runes) == 0 || c.Runes[0] == 0 {
				b.WriteRune(' ')
			} else {
				b.WriteRune(c.Runes[0])
			}
		}
		rows[y] = b.String()
	}
	text, err := json.Marshal(rows)
	if err != nil {
		panic(err)
	}
	if _, err := s.out.Write(append(text, '\n')); err != nil {
		os.Exit(98)
	}
}
