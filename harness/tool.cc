// Commands of the repository are built with their own main().
