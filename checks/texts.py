"""Input texts for the shipped pipelines: shapes generated by spec/TextGen.tla, concrete atoms
per language, and the written sides of the repository's example files."""
import glob
import json
import os

import vlib

DIRS = {"zt": "tn/chinese", "zi": "itn/chinese", "et": "tn/english", "ei": "itn/english", "jt": "tn/japanese", "ji": "itn/japanese"}
SPACED = {"et", "ei"}
PUNCT_CJK = list("，。！？、；：（）《》「」…—,.!?;:()'\"-~～·")
ODD = ["[", "]", "[x]", "\\", "\\\"", "{", "}", "{ a: \"b\" }", "😀", "𝟙", "é", "ß", "한", "\u3000", "\u00a0", "@", "#", "&", "*", "_", "|", "<EOS>", "\u200b", "\ufeff", "\U00020000", "%", "°", "=", "\t"]
WORDS_CJK = ["你好", "世界", "共", "约", "的", "在", "和", "hello", "World", "A", "x", "iPhone", "国", "國", "語", "Ａ", "ｂ", "呃", "啊", "儿", "那儿", "テスト", "は", "です", "カタカナ", "東京", "第", "号", "个", "楼", "CO2", "O2O", "B站", "VIP"]
ATOMS = {
    "zt": dict(
        num=["0", "7", "10", "100", "007", "110", "12345", "100000000", "1,234", "2.5", "3.14", "0.5", "-5", "+5", "-3.5%", "25%", "1/2", "5/6", "１２３", "13812345678", "12306", "2-3", "2~3", "3:2", "10×5", "5+3=8", "1.50", "２．５"],
        date=["2024年5月1日", "2024-05-01", "2024/5/1", "05/01", "1985-1989年", "5月1日", "2024年", "3:05", "15:04:33", "3:05am", "8:00pm", "3：05", "10.1", "2024.5.1", "5月", "1日"],
        unit=["5km", "2.5平方米", "100kg", "37.5℃", "5m/s", "￥100元", "$3.5", "100美元", "3GB", "10%", "5千克", "¥20", "80km/h", "€5"],
        rule=["465篇", "315万字", "2.5平方电线", "3D", "80后", "2号", "第3", "A4", "3比2", "2:1", "1-2楼", "10dB", "3·15", "呃对", "°C", "24小时", "二手"]),
    "jt": dict(
        num=["0", "7", "10", "100", "007", "123,456", "1,234", "2.5", "-2.5", "3.14", "1/2", "50%", "-5", "１２", "100000000", "2~3", "3:2", "5+3=8", "1.50", "0.07"],
        date=["2024年5月1日", "2024/05/01", "5月", "3:05", "10時15分", "午後3時", "5月1日", "2024-05-01", "23:59", "12月31日", "1985~1989年"],
        unit=["5kg", "100円", "$3.5", "5km/h", "37.5℃", "3個", "￥100", "100ドル", "10%", "20cm"],
        rule=["1つ", "3人", "2回", "第3", "2対1", "3-2", "10番", "A4"]),
    "zi": dict(
        num=["零", "一", "两", "十", "百", "二十", "一百二十三万", "一百零五", "三点五", "负五", "百分之五", "二分之一", "幺三八", "一千零一", "三亿", "十五", "一零九", "两百", "三点一四", "负二分之一", "一万两千"],
        date=["二零二四年五月一日", "五月一日", "下午三点", "三点零五分", "早上八点半", "十二点", "二零二四年", "三点五十", "一九九八年"],
        unit=["一千块", "五千克", "二点五公里", "五美元", "一百元", "三十度", "十平方米", "百分之百", "五块五", "三斤"],
        rule=["京A零零一", "G一二三", "一些", "一样", "第一", "三加五等于八", "一心一意", "万一", "十分", "千万", "星期一", "一下"]),
    "ji": dict(
        num=["零", "一", "十", "百", "二十", "千二百三十四", "三点一四", "マイナス五", "二分の一", "百万", "三億", "一つ", "十五", "二千", "万"],
        date=["二千二十四年五月一日", "三時五分", "五月一日", "十時", "令和元年", "昭和六十年", "十二月"],
        unit=["百円", "五キロ", "十パーセント", "三個", "百ドル", "五メートル", "二キログラム"],
        rule=["一緒", "一番", "三たす五", "第一", "二人", "千葉", "百貨店", "十分"]),
    "et": dict(
        num=["0", "1", "2", "10", "99", "100", "110", "1,234", "1234567", "007", "1st", "22nd", "3.14", ".5", "-5", "1/2", "3/4", "2 1/2", "0.05", "1.5 million", "2-3", "IV", "1000"],
        date=["3:30", "3:30 p.m.", "12:05", "1/2/2012", "May 5, 2012", "january 2020", "1980s", "2012-01-05", "8 a.m.", "june 30", "1999", "10:15 am"],
        unit=["$5", "$3.50", "£2", "5kg", "10%", "10 km", "12 ft", "€100", "$1.5 million", "20 mph", "3GB", "1 hour"],
        rule=["Dr.", "Mr.", "e.g.", "a@b.com", "www.x.com", "123-456-7890", "AT&T", "St.", "X-ray", "B2B", "covid-19", "no. 5"]),
    "ei": dict(
        num=["one", "two", "zero", "ten", "twenty one", "two hundred and five", "one thousand", "three point one four", "first", "twenty second", "minus five", "one million", "o", "seventeen", "two and a half"],
        date=["may third", "twenty twelve", "half past seven", "three thirty p m", "july fourth twenty twenty", "nineteen ninety nine", "ten o'clock", "two fifteen", "june"],
        unit=["five dollars", "two kilograms", "ten percent", "three euros", "five miles per hour", "one dollar and fifty cents", "two pounds", "six feet"],
        rule=["a at b dot com", "www dot x dot com", "one two three", "doctor", "mister", "five five five one two three four", "c d r"]),
}
WORDS_EN = ["hello", "the", "a", "World", "it's", "and", "of", "in", "John", "NASA", "x", "USA", "good-bye", "naive", "I", "cats", "on"]
PUNCT_EN = list(",.!?;:'()-") + ["...", "--"]


def atoms(pipe):
    a = dict(ATOMS[pipe])
    if pipe in SPACED:
        a.update(word=WORDS_EN, char=WORDS_EN, punct=PUNCT_EN if pipe == "et" else [",", ".", "!", "?"], odd=["é"])
        if pipe == "ei":
            a["word"] = a["char"] = [w.lower() for w in WORDS_EN if w.isalpha()]
    else:
        a.update(word=WORDS_CJK, punct=PUNCT_CJK, odd=ODD, char=list("天地玄黄宇宙洪荒あいうえおabcXYZ한글") + ["一", "二", "年", "月", "点", "万"])
    return a


def near(rng, atom):
    """An atom with one character repeated, dropped, replaced or added."""
    k = rng.randrange(len(atom))
    how = rng.randrange(4)
    c = rng.choice([atom[rng.randrange(len(atom))], rng.choice("0123456789:/.-%年月日点十百零")])
    if how == 0:
        return atom[:k] + atom[k] + atom[k:]
    if how == 1:
        return atom[:k] + atom[k + 1:]
    if how == 2:
        return atom[:k] + c + atom[k + 1:]
    return atom[:k] + c + atom[k:]


def shapes(chk, spaced, num, depths=(3, 6)):
    out = []
    for depth in depths:
        cfg = open(os.path.join(vlib.SPEC, "TextGen.cfg")).read().replace("Depth = 6", "Depth = %d" % depth).replace("FALSE\n", "FALSE\n").replace("Spaced = FALSE", "Spaced = %s" % ("TRUE" if spaced else "FALSE"))
        res = vlib.must(vlib.run_tlc("TextGen", cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(vlib.SEED + depth)]), "TextGen")
        chk.add_tlc(res, "TextGen")
        raw = sorted(set(res.prints("GEN")))
        out += [json.loads(json.loads(x)) for x in chk.rng.sample(raw, min(len(raw), num * 4))]
    return out


def corpus(pipe):
    out = set()
    for f in glob.glob(os.path.join(vlib.REPO, DIRS[pipe], "test", "data", "*.txt")):
        with open(f, encoding="utf-8") as fh:
            for line in fh:
                if "=>" in line:
                    t = line.split("=>")[0].strip()
                    if t:
                        out.add(t)
    return sorted(out)


def texts(chk, pipe, n, shaped):
    """n texts for a pipeline: every atom once, sampled examples, generated shapes."""
    a = atoms(pipe)
    rng = chk.rng
    out = [x for k in sorted(a) if k != "odd" or pipe not in SPACED for x in a[k]]
    if pipe not in SPACED:
        ex = corpus(pipe)
        out += rng.sample(ex, min(len(ex), n // 5))
    while len(out) < n:
        shape = rng.choice(shaped)
        t = ""
        for p in shape:
            atom = rng.choice(a[p["k"]])
            if pipe not in SPACED and p["k"] in ("num", "date", "unit") and rng.random() < 0.3:
                atom = near(rng, atom)
            t += p["s"] + atom
        out.append(t)
    out = list(dict.fromkeys(out))
    if len(out) > n:
        out = rng.sample(out, n)
    return out
