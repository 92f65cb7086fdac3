
ID="C02-output-tail"; PROP="C02"
NEEDS="--output naming an existing file that is longer than the new result"
BREAKS="the output file is opened without truncation, so the tail of its former content stays after the result although the command reports success"
EDITS=[("commands/edit.go", """		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	return os.WriteFile(args.outputFile, []byte(result), 0644)
}""","""		return fmt.Errorf("processing %s: %w", args.filename, err)
	}

	out, err := os.OpenFile(args.outputFile, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return fmt.Errorf("opening %s: %w", args.outputFile, err)
	}
	if _, err := out.WriteString(result); err != nil {
		out.Close()
		return fmt.Errorf("writing %s: %w", args.outputFile, err)
	}
	return out.Close()
}""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
printf 'a' > in; printf 'something much longer' > out
./texted edit -s 'insert "x"' -o out in || exit 1
[ "$(cat out)" = "xa" ]
"""
