// isspace of the C locale.
extern "C" int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
