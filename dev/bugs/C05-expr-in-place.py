ID="C05-expr-in-place"; PROP="C05"
NEEDS="-e together with -i, and an expression that changes the buffer"
BREAKS="expression evaluation writes the buffer back to the file when -i is given as well"
EDITS=[("commands/edit.go", """			files:        args.files,
		})
	}

	// Get script content
""","""			files:        args.files,
			inPlace:      args.inPlace,
		})
	}

	// Get script content
"""),("commands/edit.go", """			content:      string(content),
			source:       filename,
		})
""","""			content:      string(content),
			source:       filename,
			inPlace:      args.inPlace,
		})
"""),("commands/edit.go", """			if _, err := fmt.Printf("%s\\n", buf.String()); err != nil {
				return fmt.Errorf("writing result: %w", err)
			}
		}
	}
	return nil
""","""			if _, err := fmt.Printf("%s\\n", buf.String()); err != nil {
				return fmt.Errorf("writing result: %w", err)
			}
		}
	}
	if args.inPlace && buffer.String() != args.content {
		return os.WriteFile(args.source, []byte(buffer.String()), 0644)
	}
	return nil
"""),("commands/edit.go","type runExpressionsArgs struct {\n","type runExpressionsArgs struct {\n\tinPlace      bool\n"),("commands/edit.go","type evaluateExpressionsOnContentArgs struct {\n","type evaluateExpressionsOnContentArgs struct {\n\tinPlace      bool\n")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf one > f
./texted edit -i -e 'point-max' -e '"insert ""x"" "' f
[ "$(cat f)" = one ]
"""
