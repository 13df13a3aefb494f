"""Inserts reports into compiled assembly (x86-64, AT&T syntax as gcc writes it): before every instruction that uses
memory its effective address, at every label and behind every conditional jump the fact that it was reached. The
instructions themselves stay what the compiler chose, so the reports show what the shipped machine code does."""
import re

MEM = re.compile(r"(%[fg]s:)?([^\s,(*{]*)\(([^)]*)\)")
LABEL = re.compile(r"^([A-Za-z_.$][\w.$]*):")
STRING = re.compile(r"^(?:rep\w*\s+)?(movs|stos|lods|scas|cmps)[bwlq]$")
TEXT = re.compile(r"^\s*(\.text\b|\.section\s+\"?\.text)")
OTHER = re.compile(r"^\s*\.(data|bss|section|pushsection)\b")
BACK = re.compile(r"^\s*\.(popsection|previous)\b")
JCC = re.compile(r"^(?:notrack\s+|bnd\s+)?j(?!mp)[a-z]+\b")
PREFIX = re.compile(r"^(lock|rep|repz|repnz|repe|repne|notrack)$")

REPORT = "\tmovq\t%rax, sim_ax(%rip)\n\tleaq\t{0}, %rax\n\tleaq\t-128(%rsp), %rsp\n\tcall\tsim_hook\n\tleaq\t128(%rsp), %rsp\n\tmovq\tsim_ax(%rip), %rax\n"
REACHED = "\tmovq\t%rax, sim_ax(%rip)\n\tmovl\t$0, %eax\n\tleaq\t-128(%rsp), %rsp\n\tcall\tsim_hook\n\tleaq\t128(%rsp), %rsp\n\tmovq\tsim_ax(%rip), %rax\n"


def vector(base, disp, reg, scale):
    """Gather and scatter: one report per lane would need the mask; the index register as a whole is reported."""
    n = {"x": 16, "y": 32, "z": 64}[reg[1]]
    out = "\t%s\t%s, sim_vec(%%rip)\n" % ("vmovdqu64" if n == 64 else "vmovdqu", reg)
    if base:
        out += REPORT.format("%s(%s)" % (disp, base))
    for i in range(0, n, 8):
        out += REPORT.replace("leaq\t{0}, %rax", "movq\tsim_vec+%d(%%rip), %%rax" % i)
    return out


SIZES = {"q": ("movq", "%rax", "%rdx"), "l": ("movl", "%eax", "%edx"), "w": ("movzwl", "%ax", "%dx"), "b": ("movzwl", "%ax", None)}
DIV = re.compile(r"^i?div([bwlq])\s+(\S+)$")


def division(size, divisor):
    """The time a division takes depends on its operands."""
    mov, lo, hi = SIZES[size]
    out = ""
    for r in (lo, hi, divisor if divisor.startswith("%") else None):
        if r:
            m = "movzbl" if size == "b" and r == divisor else mov
            out += REPORT.replace("leaq\t{0}, %rax", "%s\t%s, %s" % (m, r, "%rax" if m == "movq" else "%eax"))
    return out


def instrument(text):
    out = []
    in_text = True
    stack = []
    held = False
    for line in text.splitlines():
        s = line.strip()
        m = LABEL.match(s)
        if m:
            out.append(line)
            if in_text and s == m.group(0):
                out.append(REACHED.rstrip("\n"))
            continue
        if s.startswith("."):
            if ".pushsection" in s:
                stack.append(in_text)
            if TEXT.match(s) or s.startswith('.pushsection .text'):
                in_text = True
            elif OTHER.match(s):
                in_text = False
            elif BACK.match(s):
                in_text = stack.pop() if stack else True
            out.append(line)
            continue
        if not in_text or not s or s.startswith("#"):
            out.append(line)
            continue
        code = s.split("#")[0].strip()
        parts = re.split(r"\s+", code, maxsplit=1)
        op = parts[0]
        if PREFIX.match(code):
            held = True
            out.append(line)
            continue
        name = op if op not in ("lock", "rep", "repz", "repnz", "notrack", "bnd") else re.split(r"\s+", parts[1])[0]
        before = ""
        if STRING.match(re.sub(r"\s+", " ", code)):
            for r in ("%rdi", "%rsi", "%rcx"):
                before += REPORT.replace("leaq\t{0}, %rax", "movq\t%s, %%rax" % r)
        elif DIV.match(code):
            before += division(*DIV.match(code).groups())
        if not name.startswith(("lea", "nop")):
            for m in MEM.finditer(code):
                seg, disp, inner = m.groups()
                regs = [x.strip() for x in inner.split(",")]
                if seg or regs[0] == "%rip":
                    continue  # a constant address
                if len(regs) > 1 and re.match(r"%[xyz]mm", regs[1]):
                    before += vector(regs[0], disp, regs[1], regs[2] if len(regs) > 2 else "1")
                else:
                    before += REPORT.format("%s(%s)" % (disp, inner))
        if before and not held:
            out.append(before.rstrip("\n"))
        held = False
        out.append(line)
        if JCC.match(code):
            out.append(REACHED.rstrip("\n"))
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    t = open(sys.argv[1]).read()
    open(sys.argv[2], "w").write(instrument(t))
