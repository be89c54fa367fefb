// Package vfprompt stands in for go-prompt: a prompt that is only recorded, with everything else from the real package.
package vfprompt

import real "github.com/c-bata/go-prompt"

type (
	Buffer            = real.Buffer
	Suggest           = real.Suggest
	Document          = real.Document
	Filter            = real.Filter
	History           = real.History
	Key               = real.Key
	KeyBind           = real.KeyBind
	KeyBindFunc       = real.KeyBindFunc
	KeyBindMode       = real.KeyBindMode
	ASCIICode         = real.ASCIICode
	ASCIICodeBind     = real.ASCIICodeBind
	Option            = real.Option
	Color             = real.Color
	ExitChecker       = real.ExitChecker
	Executor          = real.Executor
	Completer         = real.Completer
	CompletionManager = real.CompletionManager
	ConsoleParser     = real.ConsoleParser
	ConsoleWriter     = real.ConsoleWriter
)

// Prompt is the recorded prompt.
type Prompt struct {
	E Executor
	C Completer
}

// Last is the prompt made last.
var Last *Prompt

func New(e Executor, c Completer, opts ...Option) *Prompt {
	Last = &Prompt{e, c}
	return Last
}

func (p *Prompt) Run() {}

func FilterContains(completions []Suggest, sub string, ignoreCase bool) []Suggest {
	return real.FilterContains(completions, sub, ignoreCase)
}
func FilterFuzzy(completions []Suggest, sub string, ignoreCase bool) []Suggest {
	return real.FilterFuzzy(completions, sub, ignoreCase)
}
func FilterHasPrefix(completions []Suggest, sub string, ignoreCase bool) []Suggest {
	return real.FilterHasPrefix(completions, sub, ignoreCase)
}
func FilterHasSuffix(completions []Suggest, sub string, ignoreCase bool) []Suggest {
	return real.FilterHasSuffix(completions, sub, ignoreCase)
}
func GetKey(b []byte) Key    { return real.GetKey(b) }
func NewBuffer() (b *Buffer) { return real.NewBuffer() }
func NewCompletionManager(completer Completer, max uint16) *CompletionManager {
	return real.NewCompletionManager(completer, max)
}
func NewDocument() *Document                            { return real.NewDocument() }
func NewHistory() *History                              { return real.NewHistory() }
func OptionAddASCIICodeBind(b ...ASCIICodeBind) Option  { return real.OptionAddASCIICodeBind(b...) }
func OptionAddKeyBind(b ...KeyBind) Option              { return real.OptionAddKeyBind(b...) }
func OptionBreakLineCallback(fn func(*Document)) Option { return real.OptionBreakLineCallback(fn) }
func OptionCompletionOnDown() Option                    { return real.OptionCompletionOnDown() }
func OptionCompletionWordSeparator(x string) Option     { return real.OptionCompletionWordSeparator(x) }
func OptionDescriptionBGColor(x Color) Option           { return real.OptionDescriptionBGColor(x) }
func OptionDescriptionTextColor(x Color) Option         { return real.OptionDescriptionTextColor(x) }
func OptionHistory(x []string) Option                   { return real.OptionHistory(x) }
func OptionInitialBufferText(x string) Option           { return real.OptionInitialBufferText(x) }
func OptionInputBGColor(x Color) Option                 { return real.OptionInputBGColor(x) }
func OptionInputTextColor(x Color) Option               { return real.OptionInputTextColor(x) }
func OptionLivePrefix(f func() (prefix string, useLivePrefix bool)) Option {
	return real.OptionLivePrefix(f)
}
func OptionMaxSuggestion(x uint16) Option           { return real.OptionMaxSuggestion(x) }
func OptionParser(x ConsoleParser) Option           { return real.OptionParser(x) }
func OptionPrefix(x string) Option                  { return real.OptionPrefix(x) }
func OptionPrefixBackgroundColor(x Color) Option    { return real.OptionPrefixBackgroundColor(x) }
func OptionPrefixTextColor(x Color) Option          { return real.OptionPrefixTextColor(x) }
func OptionPreviewSuggestionBGColor(x Color) Option { return real.OptionPreviewSuggestionBGColor(x) }
func OptionPreviewSuggestionTextColor(x Color) Option {
	return real.OptionPreviewSuggestionTextColor(x)
}
func OptionScrollbarBGColor(x Color) Option    { return real.OptionScrollbarBGColor(x) }
func OptionScrollbarThumbColor(x Color) Option { return real.OptionScrollbarThumbColor(x) }
func OptionSelectedDescriptionBGColor(x Color) Option {
	return real.OptionSelectedDescriptionBGColor(x)
}
func OptionSelectedDescriptionTextColor(x Color) Option {
	return real.OptionSelectedDescriptionTextColor(x)
}
func OptionSelectedSuggestionBGColor(x Color) Option { return real.OptionSelectedSuggestionBGColor(x) }
func OptionSelectedSuggestionTextColor(x Color) Option {
	return real.OptionSelectedSuggestionTextColor(x)
}
func OptionSetExitCheckerOnInput(fn ExitChecker) Option { return real.OptionSetExitCheckerOnInput(fn) }
func OptionShowCompletionAtStart() Option               { return real.OptionShowCompletionAtStart() }
func OptionSuggestionBGColor(x Color) Option            { return real.OptionSuggestionBGColor(x) }
func OptionSuggestionTextColor(x Color) Option          { return real.OptionSuggestionTextColor(x) }
func OptionSwitchKeyBindMode(m KeyBindMode) Option      { return real.OptionSwitchKeyBindMode(m) }
func OptionTitle(x string) Option                       { return real.OptionTitle(x) }
func OptionWriter(x ConsoleWriter) Option               { return real.OptionWriter(x) }
