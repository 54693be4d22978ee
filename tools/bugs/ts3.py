BUGS = [
dict(id="ts-word-underscore", property="C16", needs="an underscore in a text searched for",
 breaks="the client keeps underscores in its n-grams, the indexer drops them",
 edits=[("src/ngram/tokenizer.ts", "      if (/[a-zA-Z0-9]/.test(c)) {\n", "      if (/\\w/.test(c)) {\n")],
 demo={"demo.ts": '''import { NgramTokenizer } from "@src/ngram/tokenizer";
const got = new NgramTokenizer(3, 3).tokens("ab_cd").map((t) => t.value).join();
if (got !== "abc,bcd") { console.log(got); process.exit(1); }
'''}, run="tsrun"),
]
