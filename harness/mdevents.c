// The events of the markdown parser for the files named on the standard input.
// argv[1]: parser flags
#include "md4c.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void
hex(const char *s, unsigned n) {
	for (unsigned i = 0; i < n; i++)
		printf("%02x", (unsigned char)s[i]);
}

static void
attr(const MD_ATTRIBUTE *a) {
	if (a->text == NULL) {
		printf(" -");
		return;
	}
	printf(" =");
	for (int i = 0; a->substr_offsets[i] < a->size; i++) {
		printf("%d:", a->substr_types[i]);
		hex(a->text + a->substr_offsets[i], a->substr_offsets[i + 1] - a->substr_offsets[i]);
		printf(",");
	}
}

static int
enterBlock(MD_BLOCKTYPE t, void *d, void *u) {
	printf("B %d", t);
	if (t == MD_BLOCK_OL)
		printf(" %u", ((MD_BLOCK_OL_DETAIL *)d)->start);
	if (t == MD_BLOCK_H)
		printf(" %u", ((MD_BLOCK_H_DETAIL *)d)->level);
	if (t == MD_BLOCK_LI)
		printf(" %d %d", ((MD_BLOCK_LI_DETAIL *)d)->is_task, ((MD_BLOCK_LI_DETAIL *)d)->is_task ? ((MD_BLOCK_LI_DETAIL *)d)->task_mark : 0);
	if (t == MD_BLOCK_CODE) {
		attr(&((MD_BLOCK_CODE_DETAIL *)d)->lang);
		attr(&((MD_BLOCK_CODE_DETAIL *)d)->info);
	}
	printf("\n");
	return 0;
}

static int
leaveBlock(MD_BLOCKTYPE t, void *d, void *u) {
	printf("b %d\n", t);
	return 0;
}

static int
enterSpan(MD_SPANTYPE t, void *d, void *u) {
	printf("S %d", t);
	if (t == MD_SPAN_A) {
		attr(&((MD_SPAN_A_DETAIL *)d)->href);
		attr(&((MD_SPAN_A_DETAIL *)d)->title);
	}
	if (t == MD_SPAN_IMG) {
		attr(&((MD_SPAN_IMG_DETAIL *)d)->src);
		attr(&((MD_SPAN_IMG_DETAIL *)d)->title);
	}
	printf("\n");
	return 0;
}

static int
leaveSpan(MD_SPANTYPE t, void *d, void *u) {
	printf("s %d\n", t);
	return 0;
}

static int
text(MD_TEXTTYPE t, const MD_CHAR *s, MD_SIZE n, void *u) {
	printf("T %d ", t);
	hex(s, n);
	printf("\n");
	return 0;
}

int
main(int argc, char **argv) {
	char path[4096];
	MD_PARSER p = {0, atoi(argv[1]), enterBlock, leaveBlock, enterSpan, leaveSpan, text, NULL, NULL};
	while (fgets(path, sizeof path, stdin)) {
		path[strcspn(path, "\n")] = 0;
		FILE *f = fopen(path, "rb");
		if (!f)
			return 3;
		fseek(f, 0, SEEK_END);
		long n = ftell(f);
		rewind(f);
		char *s = malloc(n + 1);
		if (fread(s, 1, n, f) != (size_t)n)
			return 3;
		fclose(f);
		// exactly as large as the document: reads past it are found
		char *e = malloc(n ? n : 1);
		memcpy(e, s, n);
		free(s);
		printf("F %s\n", path);
		fflush(stdout);
		int rc = md_parse(e, n, &p, NULL);
		free(e);
		printf("E %d\n", rc);
		fflush(stdout);
	}
	return 0;
}
