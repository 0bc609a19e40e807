DIFF = "the parser and an independently written reference parser run symbolically on the same source; the whole sequence of builder calls (trees, comments, errors) must be equal on every path"
ANY = "each family is a template whose numbered characters are arbitrary (all 128 ASCII characters unless said otherwise) and whose lettered slots range over a vocabulary; entries named _in take every source derived from a grammar of the language with up to one or two (thorough: two or three) productions which are not the default, at any places"


def diff(entry, **k):
    return dict(runs=[(entry, ["TIER"]), (entry + "_in", ["TIER"])], how=DIFF, bounds=ANY, **k)


PROPS = {
    "C01": dict(runs=[("h_lossless", ["TIER"])], bounds=ANY, how="the lexer runs symbolically on the source; the text of its tokens must equal the source on every path"),
    "C02": dict(runs=[("h_tokens", ["TIER"])], bounds=ANY, how="the lexer and an independently written longest-match lexer run symbolically on the same source; the tokens must be equal on every path"),
    "C03": dict(runs=[("h_lexiter", ["TIER"])], bounds=ANY, how="the lexer runs symbolically on a source which is made up as it is requested; hints, clones, requests and the end are asserted at every moment on every path"),
    "C23": dict(runs=[("h_token", []), ("h_errors", [])], bounds="all 45 kinds of token, payloads of up to three arbitrary characters; all kinds of errors with arbitrary tokens; positions up to 2^30", how="each operation of a token, a position or an error runs symbolically on an arbitrary value, against its definition"),
    "C24": dict(runs=[("h_paramfmt", [])], bounds="every parameter; names of up to four ASCII characters and samples; numbers up to 111 and the borders of every length; 80 surroundings, quoted and unquoted", how="the printed form of a symbolic parameter is parsed again within a symbolic surrounding, and must give that parameter"),
    "C06": diff("h_words"),
    "C07": diff("h_params"),
    "C08": diff("h_substs"),
    "C09": diff("h_arith"),
    "C10": diff("h_redirs"),
    "C11": diff("h_heredocs"),
    "C12": diff("h_simples"),
    "C13": diff("h_lists"),
    "C14": diff("h_compound"),
    "C15": diff("h_funcs"),
    "C18": dict(unit="build", runs=[("h_builders", ["TIER"]), ("h_builders_scripts", ["TIER"]), ("h_builders_in", ["TIER"])], bounds=ANY, how="parsers over the same symbolic source, with every bundled builder, through references, boxes, iterators and collected tokens, run side by side; trees, errors and positions must be equal on every path"),
    "C19": dict(unit="build", runs=[("h_faults", ["TIER"]), ("h_faults_scripts", ["TIER"]), ("h_faults_in", ["TIER"])], bounds=ANY + "; every single call of the builder fails in turn", how="the parser runs symbolically with a builder whose k-th call fails (for every k), and with one whose values notice being thrown away"),
    "C21": dict(unit="build", runs=[("h_normal", ["TIER"])], bounds="words of up to four pieces (thorough: six) built from every kind of piece, with substitutions of every kind nested up to twice; arithmetic of every shape up to depth two; arbitrary parameters and texts of up to two characters", how="the bundled builders run symbolically on an arbitrary word; the tree must be the one an independently written normaliser gives"),
    "C22": dict(unit="build", runs=[("h_tree", ["TIER"]), ("h_tree_scripts", ["TIER"]), ("h_tree_in", ["TIER"]), ("h_wrappers", ["TIER"])], bounds=ANY, how="the parser with the bundled builder and the reference parser with an independently written tree builder run symbolically on the same source; the trees and errors must be equal on every path"),
    "C04": dict(unit="more", runs=[("h_total", ["TIER"]), ("h_total_scripts", ["TIER"]), ("h_total_in", ["TIER"]), ("h_total_tokens", ["TIER"]), ("h_total_ops", ["TIER"])], bounds=ANY + "; sequences of up to four arbitrary tokens; every public operation, and repeated calls after errors; source nesting as deep as the templates", how="the parser runs symbolically on an arbitrary source or sequence of tokens, and again after every error; panics, overflows, invalid memory accesses, endless loops and calls without progress are violations on any path"),
    "C05": dict(unit="more", runs=[("h_positions", ["TIER"]), ("h_positions_scripts", ["TIER"]), ("h_positions_in", ["TIER"])], bounds=ANY, how="the parser and the reference parser, whose positions are computed from the text alone, run symbolically on the same source; all errors with their positions, and the position after every command, must be equal on every path"),
    "C16": dict(unit="more", runs=[("h_comments", ["TIER"]), ("h_comments_scripts", ["TIER"]), ("h_comments_in", ["TIER"]), ("h_conserved", ["TIER"])], bounds=ANY, how="the comments and newlines which the builder is told on a symbolic source must be those the reference parser finds, in the same calls, and those which were placed into the source"),
    "C17": dict(unit="more", runs=[("h_blanks", ["TIER"]), ("h_blanks_in", ["TIER"]), ("h_blanks_kept", ["TIER"])], bounds=ANY, how="the parser runs symbolically on a source with arbitrary blanks and escaped newlines at its gaps, and on the same source with single blanks; everything the builder is told must be equal on every path"),
    "C20": dict(unit="more", runs=[("h_lazy", ["TIER"]), ("h_lazy_in", ["TIER"]), ("h_parts", ["TIER"])], bounds=ANY, how="the parser runs symbolically on a source which notes every request for a character; commands, requests and the parse of concatenations are asserted on every path"),
    "C25": dict(unit="more", runs=[("h_peeks", ["TIER"]), ("h_ended", ["TIER"])], bounds=ANY, how="every question and request is put to the parser at a symbolic point of a symbolic source; the answer, the position and all that is parsed afterwards must be those of the reference parser"),
    "C26": dict(unit="more", runs=[("h_unclosed", ["TIER"]), ("h_unclosed_in", ["TIER"]), ("h_cut", ["TIER"]), ("h_cut_in", ["TIER"])], bounds="up to three (thorough: four) of 60 kinds of openings inside each other; every prefix of every script of the vocabulary, followed by an arbitrary character", how="the parser runs symbolically on an arbitrarily nested truncated source; the error and its positions must be those of the innermost opening (or of the reference parser) on every path"),
    "C27": dict(unit="more", runs=[("h_ops", ["TIER"]), ("h_ops_any", ["TIER"]), ("h_ops_in", ["TIER"]), ("h_ops_two", ["TIER"])], bounds=ANY + "; every public operation of the parser, followed by the rest of the program", how="a symbolic choice of public operations runs on a symbolic source; each result, and all that is parsed afterwards, must be those of the reference parser on every path"),
    "C28": dict(unit="more", runs=[("h_resume", ["TIER"]), ("h_resume_scripts", ["TIER"]), ("h_resume_in", ["TIER"])], bounds=ANY + "; up to four (thorough: seven) errors in a row", how="the parser is asked for commands again and again, after errors too, on a symbolic source; after each error the reference parser is set to where the parser stands, and all answers must be equal on every path"),
    "C29": dict(unit="more", runs=[("h_cuts", ["TIER"]), ("h_cuts_told", ["TIER"]), ("h_cuts_in", ["TIER"]), ("h_escaped", ["TIER"]), ("h_escaped_quoted", ["TIER"])], bounds=ANY + "; tokens cut at all the marked places, or at any one of them (thorough: any two); one escaped token of any kind, at any marked place", how="the parser runs symbolically on the tokens of the lexer and on the same text in other tokens; trees, errors and positions must be equal on every path"),
}
