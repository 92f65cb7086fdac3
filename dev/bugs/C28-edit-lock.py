ID="C28-edit-lock"; PROP="C28"
NEEDS="two texted edit -i commands running at the same time, each on its own file of the same directory"
BREAKS="an in-place edit takes a lock in the current directory and fails when another edit of other files is running"
EDITS=[("commands/edit.go", "\t// In-place editing\n\treturn processFilesInPlace(&processFilesInPlaceArgs{\n",
"""	// In-place editing
	if !args.dryRun {
		lock, err := os.OpenFile(".texted.lock", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
		if os.IsExist(err) {
			return fmt.Errorf("another edit is in progress")
		}
		if err == nil {
			lock.Close()
			defer os.Remove(".texted.lock")
		}
	}
	return processFilesInPlace(&processFilesInPlaceArgs{
""")]
DEMO=HDR+r"""go build -o "$w/texted" ./cmd/texted || exit 2
cd "$w"
mkfifo f; printf two > g
timeout 20 ./texted edit -i -s 'insert "x"' f > /dev/null 2>&1 &
sleep 0.5
./texted edit -i -s 'insert "x"' g; rc=$?
printf one > f; timeout 5 cat f > /dev/null
wait
[ $rc = 0 ] && [ "$(cat g)" = xtwo ]
"""
