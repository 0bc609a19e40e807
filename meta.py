#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.py."""
import json, os
from checks import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
TESTS = "The unit tests pin one hand-written script each; "
ALL = []


def P(id, title, statement, text, why, files, mech, over=("inputs",)):
    ALL.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech], "hook_needed": None},
    })


P("C01", "The lexer loses and invents nothing",
  "For every sequence of characters, the source text of the tokens the lexer produces, concatenated in order, is exactly the input: no character is dropped, duplicated, reordered or altered, whatever the escaping, quoting or character class. No token is ever empty.",
  "every source text", TESTS + "losing a character needs a particular neighbourhood (an escape before a blank, a multi-byte letter, end of input after an operator prefix) which no list of examples covers.",
  ["lexer.rs", "token.rs"], [("Lexer::next_internal", "lexer.rs"), ("Token::as_str", "token.rs")])
P("C02", "Tokens are the longest match, of the right kind, at every point",
  "For every sequence of characters the lexer yields the longest operator at each point (`<<-` before `<<` before `<`, and so on), `$` and a digit as a positional parameter, a maximal run of blanks as whitespace, a maximal run of name characters starting with a letter or underscore as a name, and any other maximal run as a literal. The character after an unescaped backslash is always a token of its own and never joins an operator, a name or a run of blanks.",
  "every source text, including letters, marks and spaces beyond ASCII", TESTS + "the token after a backslash or next to an operator depends on combinations of neighbours the tests do not enumerate.",
  ["lexer.rs", "token.rs"], [("Lexer::next_internal", "lexer.rs"), ("is_start_of_name/is_name", "lexer.rs")])
P("C03", "The lexer is a lazy, resumable, honest iterator",
  "At any moment the number of tokens still to come lies within the lexer's size_hint, a clone taken at any moment yields the same remaining tokens, and after the end it keeps yielding nothing. To deliver a token the lexer requests at most the token after it and the one character which ends that one, and a newline is delivered without requesting anything beyond it, so an interactive source is not blocked for a line it does not need.",
  "every source and every moment of the iteration", TESTS + "the hint, the look-ahead and the clone are never examined mid-way.",
  ["lexer.rs"], [("Lexer::size_hint", "lexer.rs"), ("Lexer: Clone", "lexer.rs")], ("inputs", "histories"))
P("C04", "Parsing always terminates, without a panic, and makes progress",
  "For every source text, and for every sequence of tokens handed to the parser directly, each parsing operation returns a result, the end, or an error: it never panics, overflows, or loops (as long as the nesting of the source fits the stack). Calling the parser again after an error always gets through the rest of the input in finitely many calls.",
  "every source text or token sequence, every public parsing operation, every continuation after an error", TESTS + "a panic or an endless loop hides in malformed or truncated input, of which the tests contain a few dozen.",
  ["parse.rs", "parse/iter.rs", "lexer.rs"], [("Parser::complete_command", "parse.rs"), ("Balanced, BacktickBackslashRemover", "parse/iter.rs")], ("inputs", "histories"))
P("C05", "Reported positions are where things are",
  "The byte, line and column reported by the parser and inside its errors are those of the character concerned: bytes count UTF-8 bytes from zero, lines count newlines from one, and columns count bytes from one within the line. This holds through escapes, comments, multi-line quotes, substitutions and heredocs, after which the numbering carries on as in the source.",
  "every source text and every point at which a position is observable", TESTS + "only single-line or hand-counted positions are asserted; the bookkeeping around heredocs and look-ahead is exercised by a handful.",
  ["parse.rs", "parse/iter.rs"], [("SourcePos::advance", "parse.rs"), ("TokenIter, TokenIterWrapper", "parse/iter.rs")])
P("C06", "Words are cut and quoted as the shell language says",
  "A word extends to the next unquoted blank or operator, and its pieces are classified by the quoting rules: an unquoted backslash escapes exactly one character and vanishes with a newline, single quotes preserve everything, and in double quotes a backslash is special only before dollar, backquote, double quote, backslash and newline. Globs, tildes and colons are special only outside quotes, and a hash starts a comment only at the start of a word.",
  "every word: any characters, any nesting of quotes", TESTS + "which character follows which quote or backslash is a product the tests sample.",
  ["parse.rs", "parse/iter.rs"], [("Parser::word_preserve_trailing_whitespace_raw", "parse.rs"), ("Parser::word_interpolated_raw", "parse.rs")])
P("C07", "Parameters and parameter substitutions are recognised exactly",
  "Each form `$x`, `$1`, `$@`, `${x}`, `${#x}`, `${xOPword}` (operators - = ? + with and without colon, %, %%, #, ##) yields that parameter, that operator and that word, unquoted or within double quotes or a heredoc, and a form outside the grammar yields an error naming the offending token rather than something else. A number in braces is a positional parameter of exactly that value, and one too large is an error.",
  "every parameter, operator, and word, in every quoting context", TESTS + "the special parameters which are also operators (`#`, `-`, `?`) make the product of parameter, operator and word irregular.",
  ["parse.rs"], [("Parser::parameter_raw", "parse.rs"), ("Parser::parameter_substitution_raw", "parse.rs")])
P("C08", "Command substitutions contain exactly the commands between their delimiters",
  "`$(...)` and backquotes yield the commands of the text between the matching delimiters, however these are nested in quotes, braces, parentheses or each other, and the text after the closing delimiter continues the word. Within backquotes exactly one level of backslashes before dollar, backquote and backslash is removed.",
  "every nesting and every text inside", TESTS + "matching depends on what is quoted where, which is a recursive choice.",
  ["parse.rs", "parse/iter.rs"], [("Parser::backticked_raw", "parse.rs"), ("Balanced", "parse/iter.rs"), ("BacktickBackslashRemover", "parse/iter.rs")])
P("C09", "Arithmetic expressions group by precedence and associativity",
  "An arithmetic substitution yields the tree C's rules give: comma, assignment and compound assignment (right associative), ?:, ||, &&, |, ^, &, equality, comparison, shifts, additive, multiplicative, exponentiation (right associative), prefix and postfix operators, parentheses. Integer literals in decimal, octal and hexadecimal have their exact value, and anything else is an error.",
  "every expression: any sequence of operators and operands, any integer literal", TESTS + "precedence is a relation between all pairs of operators, and literal values are numeric.",
  ["parse.rs"], [("Parser::arithmetic_substitution", "parse.rs"), ("arith_* methods", "parse.rs")])
P("C10", "Redirections have the right operator, descriptor and target",
  "A redirection is an operator with the word after it as its target, and with the digits immediately before it, and only those, as its descriptor when they form a number up to 65535; otherwise they are an ordinary word. The target of a duplication must be numeric, a dash, or something whose value is only known at run time; anything else is a bad descriptor error.",
  "every operator, text before it and target", TESTS + "only common spellings are tested, not what may stand right before the operator or mixed targets.",
  ["parse.rs"], [("Parser::redirect", "parse.rs"), ("could_be_numeric, as_num", "parse.rs")])
P("C11", "A heredoc's body is exactly the lines up to its delimiter",
  "The body of a heredoc is the text from the line after its operator up to the first line which equals the delimiter with quotes removed (or up to the end of input), taken literally when any of the delimiter was quoted and otherwise with parameters, substitutions and escapes recognised; `<<-` removes the leading tabs of every line. Several heredocs on one line take their bodies in order, the rest of the line and the text after the bodies are parsed as if the bodies were not there.",
  "every delimiter, every body, everything on the rest of the line, any nesting", TESTS + "the body is found by scanning ahead of the parser, which interacts with anything that may stand on the same line.",
  ["parse.rs", "parse/iter.rs"], [("Parser::redirect_heredoc", "parse.rs"), ("TokenIter::buffer_tokens_to_yield_first", "parse/iter.rs")])
P("C12", "Simple commands: assignments first, then words, redirections anywhere",
  "A simple command consists of leading assignments (a name immediately followed by `=`, with the rest of that word as value, or none) and redirections, then words and redirections, all in source order. After the first word anything that looks like an assignment is a word, and after the first word no reserved word is special.",
  "every sequence of words, assignments and redirections", TESTS + "the order in which the three kinds mix is a free choice.",
  ["parse.rs"], [("Parser::simple_command", "parse.rs")])
P("C13", "Lists and pipelines associate as written",
  "`&&` and `||` have equal precedence and associate to the left, `|` binds tighter, and `!` negates the pipeline it starts and is rejected elsewhere. `;`, `&` and newline end a command with the separator recorded, newlines are allowed after `|`, `&&` and `||` and nowhere before, and a missing operand is an error at the token found instead.",
  "every sequence of commands, operators, newlines and comments", TESTS + "the tests use two or three commands with a fixed layout.",
  ["parse.rs"], [("Parser::and_or_list", "parse.rs"), ("Parser::pipeline", "parse.rs"), ("Parser::complete_command_with_leading_comments", "parse.rs")])
P("C14", "Compound commands and reserved words are recognised exactly where due",
  "Groups, subshells, while, until, if, for and case yield their parts in order with each part in its place and with the redirections after them, whatever separators and nesting are used. A reserved word counts only when it is unquoted, complete, and at the start of a command (or where its construct expects it); an empty or misplaced part is an error.",
  "every nesting and layout of compound commands", TESTS + "the grammar is recursive, and a reserved word's role depends on its context.",
  ["parse.rs"], [("Parser::compound_command", "parse.rs"), ("Parser::command_group", "parse.rs"), ("Parser::peek_reserved_word", "parse.rs")])
P("C15", "Function declarations are told from commands, with name and body",
  "`name() body`, `function name body` and `function name() body` declare a function with that name and that compound command (with its redirections) as body, with blanks, escaped newlines and newlines wherever the grammar allows them, and a simple command is never mistaken for one. A function whose body is a subshell is told from an empty parameter list.",
  "every name, spacing and body", TESTS + "the decision looks several tokens ahead, across blanks and newlines.",
  ["parse.rs"], [("Parser::maybe_function_declaration", "parse.rs"), ("Parser::function_declaration", "parse.rs")])
P("C16", "Every comment and newline reaches the builder once, in place",
  "Every comment of the source is delivered to the builder exactly once, with its exact text, in source order, attached to the construct in which it stands, and text which is not a comment (a hash inside a word or quotes) never is. Blank lines between commands are reported too.",
  "every place a comment can stand, every comment text", TESTS + "each construct has its own list of places for comments, and the tests use one comment per place.",
  ["parse.rs", "ast/builder.rs"], [("Parser::linebreak, Parser::newline", "parse.rs")])
P("C17", "Blanks and escaped newlines between words change nothing",
  "Wherever a blank may separate two words or operators, that blank may be followed by any sequence of blanks and escaped newlines, and next to an operator, where none is needed, one may be added, without changing the resulting commands, comments or errors. Inside quotes and heredocs the same characters are kept.",
  "every command and every gap", TESTS + "every gap in every construct is a separate place in the code where blanks are skipped.",
  ["parse.rs"], [("Parser::skip_whitespace", "parse.rs")])
P("C18", "All builders see the same program",
  "The bundled builders for plain, reference-counted and atomically reference-counted syntax trees give equal trees for the same source, wrapping a builder in a reference or box changes nothing, and the builder which discards everything accepts and rejects exactly the same sources with the same errors. The iterator over commands yields the same sequence as asking for commands one by one, and ends after an error.",
  "every source, every bundled builder", TESTS + "the tests use one builder almost everywhere.",
  ["ast/builder.rs", "ast/builder/default_builder.rs", "ast/builder/empty_builder.rs", "parse/iter.rs", "parse.rs"], [("impl Builder for &mut T, Box<T>", "ast/builder.rs"), ("ParserIterator", "parse.rs")], ("inputs", "configurations"))
P("C19", "An error of the builder stops parsing and is reported unchanged",
  "When any call to the builder fails, the parsing operation in progress returns that very error and makes no further call to the builder. Without a failure, every value a call returned reaches a later call or the result exactly once.",
  "every source and every choice of the failing call", TESTS + "no test makes a builder fail.",
  ["parse.rs", "ast/builder.rs"], [("Builder error conversion at each call", "parse.rs")], ("inputs", "fault_sequences"))
P("C20", "Commands are available as soon as their line ends, one at a time",
  "Asking for a command consumes the source up to the end of that command's line (and of its heredocs' bodies) and requests no character beyond, so commands of an interactive or very long source are delivered as they arrive. The commands of a script made of two complete parts are those of the first followed by those of the second.",
  "every command followed by any text", TESTS + "all tests parse a complete string; how much was consumed is never looked at.",
  ["parse.rs", "parse/iter.rs", "lexer.rs"], [("Parser::complete_command", "parse.rs"), ("TokenIter", "parse/iter.rs")], ("inputs", "histories"))
P("C21", "The default builder normalises words without changing their meaning",
  "The words of the default syntax tree are normalised: adjacent literals, adjacent single-quoted and adjacent double-quoted pieces are merged, a word of one piece is not a concatenation, and text, quoting and order of all pieces are otherwise kept, at every nesting depth. Every parameter, operator, escape and substitution of the input appears unchanged in the output.",
  "every word the builder can be handed, valid or not", TESTS + "the merging works on runs of equal pieces, whose positions and lengths are free.",
  ["ast/builder/default_builder.rs", "ast/builder.rs"], [("compress", "ast/builder/default_builder.rs"), ("CoreBuilder::word", "ast/builder/default_builder.rs")])
P("C22", "The default syntax tree says what the source says",
  "The syntax tree built by the default builder has exactly the structure, in order, of the source: each command, list operator, pipeline with its negation, background or foreground separator, redirection, assignment, word, guard, body, arm, loop word and function appears once, in its place, and nothing else does. Single-command pipelines without negation and one-element structures are represented directly. The top-level wrappers of commands and words are equal to, are made from, and give back exactly the trees they wrap.",
  "every source", TESTS + "the tests compare a few dozen trees; the mapping has a case for every construct and every optional part.",
  ["ast/builder/default_builder.rs", "ast.rs"], [("CoreBuilder", "ast/builder/default_builder.rs")])
P("C23", "Tokens and errors print as what they are, and positions add up",
  "A token's text, length and printed form are the source text it stands for; a positional parameter converts to and from its digit, and other numbers to none. Advancing a position by a token adds its length, or moves to the start of the next line for a newline (the lexer puts newlines in no other token), and every parse error prints a message which names the offending text and position; an error of the builder is the cause of the error which reports it, and no other has one.",
  "every token, every position, every error", TESTS + "printing and position arithmetic of most tokens are not tested.",
  ["token.rs", "parse.rs"], [("Token::as_str, Token::len, Display", "token.rs"), ("SourcePos::advance", "parse.rs"), ("ParseError: Display", "parse.rs")])
P("C24", "Parameters print as shell source which reads back as the same parameter",
  "Printing any parameter gives shell text which, parsed again, is that very parameter, whatever its name or number and whatever text surrounds it (short of an unfinished `$` or escape right before it).",
  "every parameter: special, positional of any number, any name", TESTS + "only a few parameters are ever printed.",
  ["ast.rs", "parse.rs"], [("Parameter: Display", "ast.rs"), ("Parser::parameter_raw", "parse.rs")])
P("C25", "Looking ahead consumes nothing",
  "Asking whether a given token, reserved word or token sequence comes next, at any point and any number of times, changes neither what is parsed afterwards nor the positions, beyond skipping blanks. A request for a specific reserved word or token succeeds exactly when the corresponding question is answered with yes; a request for a reserved word which fails leaves the input where it was. The end of the tokens is final: what their source may yield when asked once more is never parsed.",
  "every source, every point, every question", TESTS + "look-ahead is only ever tested through the constructs which use it.",
  ["parse.rs", "parse/iter.rs"], [("Parser::peek_reserved_token, peek_reserved_word", "parse.rs"), ("Multipeek", "parse/iter.rs")], ("inputs", "histories"))
P("C26", "A truncated construct is reported with the place where it began",
  "A source which ends inside quotes, a substitution, a group or a compound command is rejected, with an error that names the unclosed delimiter or the missing keyword together with the position at which the construct began, or the end of input when an operand is missing. No proper prefix is silently completed, except one which is itself a complete program or a heredoc ended by the end of input.",
  "every construct cut at every point", TESTS + "few constructs are tested cut short, each at one place.",
  ["parse.rs", "parse/iter.rs"], [("ParseError::Unmatched, IncompleteCmd", "parse.rs"), ("Balanced", "parse/iter.rs")])
P("C27", "Each public parsing operation parses its construct and leaves the rest",
  "Every public operation of the parser (a pipeline, a word, a redirection, a loop body, a parameter, an arithmetic expression and so on) accepts exactly its construct at the current point, yields the same as within a whole program (or reports the same error at the same place), and leaves the text after it to the next operation. Applied to anything else it reports an error or nothing.",
  "every operation, on every text", TESTS + "most operations are only tested on one accepted text.",
  ["parse.rs"], [("public methods of Parser", "parse.rs")], ("inputs", "histories"))

P("C28", "After an error, parsing goes on in the same source",
  "An error is not the end: asked again, the parser goes on with the same source. It has consumed nothing beyond the token the error is about, it stands at a token which the failed command had not yet given up, and whatever it parses from there is what the source says from there on: nothing is skipped, repeated or taken from elsewhere, also when the error lay within backquotes, a substitution or the body of a heredoc.",
  "every source, every sequence of errors", TESTS + "a test ends at the first error; the iterators which the parser puts in place of its own while it parses backquotes and heredocs are only ever put back on success there.",
  ["parse.rs", "parse/iter.rs"], [("Parser::complete_command", "parse.rs"), ("Parser::redirect_heredoc", "parse.rs"), ("Parser::backticked_raw", "parse.rs"), ("Parser::make_unexpected_err", "parse.rs")], ("inputs", "histories"))
P("C29", "How a lexer cuts blanks and words, and what it escapes, is up to it",
  "The parser accepts the tokens of any lexer. Blanks, the text of words, quoted text, heredocs and comments may come in any number of consecutive whitespace, literal or name tokens, as long as names and reserved words that need look-ahead are whole: the trees, the errors and all positions are the same. A backslash makes the one token after it literal, of whatever kind and length: that token is as good as a literal with its text.",
  "every source, every way to cut it into tokens", TESTS + "sequences of tokens other than the lexer's are hardly tested.",
  ["parse.rs", "parse/iter.rs", "token.rs"], [("Parser (Token lexing)", "parse.rs"), ("Parser::redirect_heredoc", "parse.rs"), ("Parser::word_preserve_trailing_whitespace_raw", "parse.rs"), ("TokenIterator", "parse/iter.rs")], ("inputs",))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in ALL:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
         "notes": "engine/: a symbolic executor for the LLVM bitcode rustc makes of /repo and harness/; see DESIGN.md"}
    for p in ALL:
        if p["id"] in PROPS:
            m["checks"].append({
                "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "technique": "symbolic execution of the library's LLVM bitcode, z3 deciding every branch and assertion",
                "level": "model_checking", "level_note": PROPS[p["id"]]["how"] + "; for every input within the families of the evidence file. Trusts rustc's bitcode, z3 and engine/ (whose paths are replayed natively).",
            })
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
