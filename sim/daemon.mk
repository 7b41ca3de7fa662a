# Read after /repo/preload-src/Makefile (same sources, same flags): the daemon as a shared library, built outside /repo.
simobjs := $(patsubst %.c,$(SIMOUT)/%.o,$(SRCS))
$(SIMOUT)/%.o: %.c
	@mkdir -p $(dir $@)
	@$(CC) $(CFLAGS) -w -O1 -g -fno-omit-frame-pointer -fPIC -fsanitize-coverage=trace-pc $(SIMFLAGS) -c $< -o $@
$(SIMLIB): $(simobjs)
	@$(CC) -shared -o $@ $^ $(SIMFLAGS) $(LDFLAGS)
