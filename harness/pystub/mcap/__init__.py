"""Stand-in for the mcap package: files are JSON after a magic line, messages in the order in which they were written."""
