"""Programs: those of /repo/tests and the ones written here so that every construct of the language occurs."""
import glob, os, re
import vlib, pp

# words the language reserves (docs/Language.md, 3.1) and names of the built-in functions
RESERVED = set()


for w in ("""
abs asin assert bool break case char const continue cos default do double else enum exit exp false fclose fgetc file float fopen for fputc getid if int log log10 long main null
print printf printid rand receive_float_from_robot receive_int_from_robot receive_string_from_robot return round send_float_to_robot send_int_to_robot send_string_to_robot sin sqrt
strcat strcmp strncmp strncpy strstr struct switch t_create t_destroy t_exit t_getnum t_init t_join t_msg_receive t_msg_send t_sem_create t_sem_post t_sem_wait t_sleep true typedef
upb void while абс асин булево вещ возврат выбор выход главная двойной длин для если иначе истина квкор кол_во конкат_строки конст копир_н_симв кос литера лог лог10 ложь
н_вверх_сем н_вниз_сем н_закончить н_конец н_начать н_номер_нити н_получить н_послать н_присоед н_создать н_создать_сем н_спать нач_подстрок ничто округл перечисление печать
печатьид печатьф пока получить_вещ_от_робота получить_строку_от_робота получить_цел_от_робота послать_вещ_на_робот послать_строку_на_робот послать_цел_на_робот проверить продолжить
пусто син случ случай сравн_н_симв сравн_строк структура типопр умолчание файл фзакрыть фоткрыть фписать_символ фчитать_символ цел цикл читатьид эксп
""").split() + ["numTh", "data", "main"]: RESERVED.update((w, w.upper()))
TOK = re.compile(r"<<=|>>=|\+\+|--|->|&&|\|\||[<>=!]=|<<|>>|[-+*/%%&|^]=|0[xX][0-9a-fA-F]+|\.?[0-9](?:[eEеЕ][-+][0-9]|[%s0-9.])*|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|[%s][%s0-9]*|\S" % (pp.LET, pp.LET, pp.LET), re.S)


def tokens(s):
    if "#" in s: return None
    return TOK.findall(pp.strip_comments(s.replace("\\\n", " ")))


def is_user_name(t):
    return pp.is_id(t) and t not in RESERVED


def cuts(ts):
    """where one external declaration ends and the next begins"""
    out, depth, func = [], 0, False
    for k, t in enumerate(ts):
        if t in "{([": depth += 1
        elif t in "})]":
            depth -= 1
            if depth == 0 and t == "}" and func: out.append(k + 1)
        if depth == 0 and t == ";": out.append(k + 1)
        if depth == 1 and t == "{": func = k > 0 and ts[k - 1] == ")"
    return [k for k in out if 0 < k < len(ts)]


def source(path):
    try: return open(path, encoding="utf-8").read().replace("\r\n", "\n").lstrip("\ufeff")
    except (UnicodeDecodeError, OSError): return None


def programs(limit=20000):
    for k, s in enumerate(OWN): yield "own program %d" % k, s
    for path in sorted(glob.glob(os.path.join(vlib.REPO, "tests") + "/**/*.c", recursive=True)):
        s = source(path)
        if s and len(s) < limit and "#" not in s: yield os.path.relpath(path, vlib.REPO), s


OWN = [r'''
struct P { int x; int y; float z; char c; bool f; } p, q[3];
enum E { A, B = 5, C };
typedef int T;
int g = 1, a[3] = { 1, 2, 3 }, m[2][2] = { { 1, 2 }, { 3, 4 } };
float r = 1.5e1, s = .5;
char ch = 'я', str[] = "ab\n" "cd";
bool t = true;
T *ptr;
int f(int, float, char);
void h(int [], struct P);
int f(int i, float v, char w) { return i + w; }
void h(int b[], struct P z) { b[0] = z.x; }
int rec(int n) { return n <= 1 ? 1 : n * rec(n - 1); }
int ap(int (*fn)(int), int k) { return fn(k); }
int main()
{
	int i, j = 0x1F, k = 3;
	float v = 2.5;
	struct P w = { 1, 2, 3.5, 'c', false }, *pw;
	pw = &w;
	ptr = &g;
	*ptr = 5;
	for (i = 0; i < 3; i++) { if (i == 1) continue; else a[i] += i; while (j > 0) { j -= 7; if (j == 3) break; } }
	do { k--; } while (k > 0);
	switch (g) { case 1: g = 2; break; case B: g <<= 2; case 'x': g = ~g; default: g = -g; }
	i = j = (k + 1) * 2 - g / 3 % 5 | 1 & 7 ^ 2;
	v = v * i - r / s;
	t = !t && i > 3 || v >= 2.0;
	i = t ? rec(4) : ap(rec, 3);
	i++; --i; ++i; i--; i *= 2; i /= 2; i %= 7; i |= 1; i &= 15; i ^= 3; i >>= 1; i -= 1;
	w.x = pw->y; pw->x++; q[1].x = w.x; q[i & 1].y += 2; m[1][0] = m[0][1] - m[i & 1][1];
	h(a, w);
	printf("%i %f %c %s\n", i, v, ch, str);
	print(w); printid(i, v); getid(i);
	i = abs(i);
	assert(i >= 0, "negative");
	return f(i, v, ch);
}
''', r'''
структура Точка { цел икс; цел игрек; вещ зет; } тчк;
перечисление Цвет { КРАСНЫЙ, ЖЁЛТЫЙ = 7, синий };
цел сумма(цел массив[], цел сколько)
{
	цел и, итог = 0;
	для (и = 0; и < сколько; и++) итог += массив[и];
	возврат итог;
}
пусто главная()
{
	цел список[4] = { 1, 2, 3, КРАСНЫЙ }, эн;
	вещ ве = 1.25е1;
	литера бу = 'ы';
	булево да = истина;
	эн = сумма(список, 4);
	если (эн > ЖЁЛТЫЙ && да) эн = 1; иначе эн = 2;
	пока (эн < 10) эн++;
	тчк.икс = эн;
	выбор (эн) { случай 1: эн = 0; выход; случай ЖЁЛТЫЙ: эн = 5; умолчание: эн = 3; }
	печать(тчк);
	печатьф("%ц %в %л\n", эн, ве, бу);
}
''', r'''
int x[2][3], y;
void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; }
float mean(float v[], int n) { float s = 0; int i; for (i = 0; i < n; i++) { s += v[i]; } return s / n; }
bool odd(int n) { return n % 2 == 1; }
char next(char c) { return c + 1; }
int pick(bool (*which)(int), int n) { if (which(n)) return 1; return 0; }
void main()
{
	int i, j, k = 0;
	float v[] = { 1.0, 2.5, 3.25 };
	for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) { x[i][j] = i * 10 + j; if (x[i][j] == 11) { break; } }
	swap(&x[0][0], &y);
	k = i < 1 ? j : y, k++;
	{ int k = 5; { int k = 6; y = k; } y += k; }
	printf("%i %i %f %c %i", k, y, mean(v, upb(v) + 1), next('a'), pick(odd, 3));
	while (1) { if (k++ > 5) break; if (k == 3) continue; y--; }
	return;
}
''']
