"""one well-formed use of every construct the parser knows, by family"""

CONTENT = r"""
\abstract{ab}
\section{ab}
\subsection*{ab}
\part{ab}
\chapter{ab}
\paragraph{ab}
\subparagraph*{ab}
\footnote[1]{ab}
\caption[a]{ab}
\subcaption{ab}
\captionof{figure}{ab}
\input{qqfile}
\include{qqfile}
\ref{a,b}
\eqref{a}
\pageref{a}
\cref{a,b}
\hyperref[a]{b}
\href{a}{b}
\bookmark[a]{b}
\pdfbookmark[1]{a}{b}
\footnotemark[1]
\footnotetext[1]{a}
\url{a}
\path{a}
\doi{a}
\includegraphics[a=1]{b}
\includepdf[a]{b}
\graphicspath{{a}{b}}
\cite[a][b]{c,d}
\citep[a]{c}
\defcitealias{a}{b}
\citetalias{a}
\title[a]{b}
\appendix
\appendices
\keywords{a}
\bibliography{qqfile}
\addbibresource{qqfile}
""".strip().split("\n")

AUTHOR = r"""
\author{a \and b}
\author[1]{a}
\affil[1]{a}
\affiliation{a}
\email{a}
\address{a}
\thanks{a}
\authorrunning{a}
\institute{a}
\curraddr{a}
\orcid{a}
""".strip().split("\n")

FORMAT = r"""
\documentclass[a]{b}
\usepackage[a]{b}
\NeedsTeXFormat{a}[b]
\ProvidesPackage{a}[b]
\pdfoutput=1
\pdfinfo{a}
\setdefaultlanguage{a}
\date{a}
\today
\subjclass[a]{b}
\hypersetup{a}
\captionsetup[a]{b}
\maketitle
\addcontentsline{a}{b}{c}
\addtocontents{a}{b}
\titlecontents{a}[b]{c}{d}{e}{f}
\printcontents{a}{b}{c}{d}
\enlargethispage{a}
\vskip 1pt
\penalty=1
\bigskip
\pagestyle{a}
\renewbibmacro*{a}{b}
\newpagestyle{a}{b}
\lstset{a}
\setlist[a]{b}
\value{a}
\topmargin 1pt
\lineskip 1pt
\linewidth
\setlength{\a}{1pt}
\setcounter{a}{1}
\addtocounter{a}{1}
\hspace*{1pt}
\vspace{1pt}
\kern 1pt
\tcbset{a}
\PassOptionsToPackage{a}{b}
\DeclareFontShape{a}{b}{c}{d}{e}{f}
\DeclareOption*{a}
\num[a]{1}
\numberwithin{a}{b}
\itemsep 1pt
\rule[1pt]{1pt}{2pt}
\protect\a[b]{c}
\counterwithin{a}{b}
\AddEnumerateCounter{a}{b}{c}
\geometry{a}
\ensuremath{a}
\hyphenation{a}
\phantom{a}
\hphantom{a}
\raise 1pt
\lower\a
\newmdenv[a]{b}
\@empty
\advance\a by 1
\typeout{a}
\pacs{a}
\unvbox 1
\string\a
\wd1
\the\a
\noindent
\definecolor{a}{RGB}{1,2,3}
\color{red}
\textcolor{red}{a}
\colorbox{red}{a}
\fcolorbox{red}{blue}{a}
\rowcolor[gray]{0.9}
\cellcolor{red}
\arraycolsep=1pt
\fontsize{1}{2}
\selectfont
\looseness=-1
\hskip 1pt plus 1pt minus 1pt
\vrule width 1pt
\hrule height 1pt
\titleformat{\section}[a]{b}{c}{1pt}{d}[e]
\titlespacing*{\section}{1pt}{2pt}{3pt}
\fancyhead[L]{a}
\fancyfoot[L]{a}
\markboth{a}{b}
\markright{a}
\lhead{a}
\hfill
\linebreak[1]
\newpage
\\[1pt]
\newline
\par
""".strip().split("\n")

STYLE = r"""
\textbf{a}
\textit{a}
\emph{a}
\texttt{a}
\textsc{a}
\underline{a}
\text{a}
\mbox{a}
\hbox{a}
\textsuperscript{a}
\textsubscript{a}
\sout{a}
\textlarge{a}
\texorpdfstring{a}{b}
\bf a
{\it a}
\bfseries a
\large a
\em a
\centerline{a}
\frac{a}{b}
\textnormal{a}
\uppercase{a}
\MakeUppercase{a}
\verb|a|
\verb*|a|
\lstinline|a|
\lstinline[a]{b}
\mintinline{a}{b}
\'e
\'{e}
\"{\i}
\c{c}
\v s
\~n
\ss
\alpha
\S
\copyright
\ldots
""".strip().split("\n")

DEFS = r"""
\newcommand{\qa}[1][b]{#1}
\newcommand*\qa[2]{#1#2}
\renewcommand{\qa}{a}
\providecommand{\qa}{a}
\def\qa#1.#2{#1#2}
\edef\qa{a}
\gdef\qa{a}
\let\qa=\qb
\let\qa\qb
\futurelet\qa\qb
\DeclareMathOperator*{\qa}{b}
\DeclarePairedDelimiter{\qa}{(}{)}
\DeclareRobustCommand{\qa}[1]{#1}
\NewDocumentCommand{\qa}{m o}{#1}
\newenvironment{qa}[1][b]{c#1}{d}
\renewenvironment{qa}{c}{d}
\newtheorem{qa}[qb]{c}[section]
\newtheorem*{qa}{b}
\theoremstyle{a}
\newtheoremstyle{a}{b}{c}{d}{e}{f}{g}{h}{i}
\crefname{a}{b}{c}
\newif\ifqa
\newlength{\qa}
\newlength\qa
\newcounter{qa}[qb]
\newcount\qa
\newdimen\qa
\newtoks\qa
\newbox\qa
\newsavebox{\qa}
\sbox{\qa}{b}
\savebox{\qa}[1pt][l]{b}
\setbox\qa\hbox{b}
\usebox{\qa}
\begin{lrbox}{\qa}b\end{lrbox}
\@namedef{qa}{b}
\csname qa\endcsname
\expandafter\def\csname qa\endcsname{b}
\expandafter\qa\qb
\undef\qa
\newcolumntype{Q}[1]{c}
\newfam\qa
\font\qa=cmr10
\newread\qa
\define@key{qa}{b}[c]{d}
\setkeys{qa}{b=c}
\pgfkeys{/a=b}
\tikzset{a/.style={b}}
\usetikzlibrary{a}
\DeclareCaptionFormat{a}{b}
""".strip().split("\n")

COND = r"""
\iftrue a\else b\fi
\iffalse a\else b\fi
\ifnum1<2 a\else b\fi
\ifdim1pt<2pt a\fi
\ifx\qa\qb a\else b\fi
\if ab c\else d\fi
\ifdefined\qa b\else c\fi
\ifcase 1 a\or b\else c\fi
\ifqa b\fi
\ifthenelse{\equal{a}{b}}{c}{d}
\@ifnextchar[{a}{b}
\@ifstar{a}{b}
\@ifundefined{a}{b}{c}
\@ifpackageloaded{a}{b}{c}
\ifdef{\qa}{b}{c}
\ifundef{\qa}{b}{c}
\ifblank{a}{b}{c}
\ifstrequal{a}{b}{c}{d}
\unless\ifnum1<2 a\fi
\@for\qa:=a,b\do{c}
\foreach \qa in {a,b} {c}
\@tfor\qa:=ab\do{c}
\forloop{a}{1}{2}{b}
\loop a\repeat
\pretocmd{\qa}{a}{b}{c}
\apptocmd{\qa}{a}{b}{c}
\AtBeginDocument{a}
\AtEndDocument{a}
\addto\qa{b}
\csdef{qa}{b}
\patchcmd{\qa}{a}{b}{c}{d}
\newtoggle{qa}
\toggletrue{qa}
\iftoggle{qa}{b}{c}
""".strip().split("\n")

BOX = r"""
\makebox[1pt][l]{a}
\framebox[1pt]{a}
\fbox{a}
\parbox[t]{1pt}{a}
\raisebox{1pt}[a][b]{c}
\scalebox{1}[2]{a}
\resizebox{1pt}{!}{a}
\rotatebox[a]{1}{b}
\adjustbox{a}{b}
\minipage{1pt}a\endminipage
\pbox{1pt}{a}
\vbox{a}
\vtop{a}
\hbox to 1pt{a}
\llap{a}
\rlap{a}
\footnotesize a
\begin{overpic}[a]{b}c\end{overpic}
\put(1,2){a}
\multiput(1,2)(3,4){5}{a}
\begin{picture}(1,2)a\end{picture}
\tikz[a]{b}
\tikz\draw a;
\begin{tikzpicture}[a]b\end{tikzpicture}
\begin{pgfpicture}a\end{pgfpicture}
\subfloat[a]{b}
\subfigure[a]{b}
\subcaptionbox{a}{b}
\begin{subfigure}[b]{1pt}a\end{subfigure}
\marginpar{a}
\tablefoot{a}
\tablefootmark{a}
\thead{a}
\makecell{a\\b}
\multicolumn{2}{c}{a}
\multirow{2}{*}{a}
\shortstack{a\\b}
\substack{a\\b}
\hline
\cline{1-2}
\cmidrule(lr){1-2}
\toprule
""".strip().split("\n")

ENV = r"""
\begin{abstract}a\end{abstract}
\begin{figure}[h]a\end{figure}
\begin{figure*}[h]\caption{a}\label{b}\end{figure*}
\begin{table}[h]a\end{table}
\begin{tabular}{c|c}a&b\\c&d\end{tabular}
\begin{tabular*}{1pt}{cc}a&b\end{tabular*}
\begin{tabularx}{1pt}{cc}a&b\end{tabularx}
\begin{longtable}{cc}a&b\end{longtable}
\begin{tabu}to 1pt{cc}a&b\end{tabu}
\begin{itemize}[a]\item a\item[b] c\end{itemize}
\begin{enumerate}\item a\end{enumerate}
\begin{description}\item[a] b\end{description}
\begin{theorem}[a]b\end{theorem}
\begin{lemma}\label{a}b\end{lemma}
\begin{proof}[a]b\end{proof}
\begin{quote}a\end{quote}
\begin{center}a\end{center}
\begin{minipage}[t]{1pt}a\end{minipage}
\begin{wrapfigure}[1]{r}{2pt}a\end{wrapfigure}
\begin{verbatim}a\end{verbatim}
\begin{lstlisting}[a=b]c\end{lstlisting}
\begin{minted}[a]{b}c\end{minted}
\begin{algorithm}[h]a\end{algorithm}
\begin{algorithmic}[1]\STATE a\end{algorithmic}
\begin{equation}a\label{b}\end{equation}
\begin{equation*}a\end{equation*}
\begin{align}a&b\\c&d\end{align}
\begin{gather*}a\\b\end{gather*}
\begin{eqnarray}a&=&b\end{eqnarray}
\begin{subequations}\begin{align}a\end{align}\end{subequations}
\begin{cases}a\\b\end{cases}
\begin{array}{cc}a&b\end{array}
\begin{matrix}a&b\end{matrix}
\begin{math}a\end{math}
\begin{displaymath}a\end{displaymath}
\begin{split}a\end{split}
\begin{thebibliography}{9}\bibitem[a]{b}c\end{thebibliography}
\begin{document}a\end{document}
\begin{appendices}a\end{appendices}
\begin{comment}a\end{comment}
\begin{tcolorbox}[a]b\end{tcolorbox}
\begin{mdframed}a\end{mdframed}
\begin{multicols}{2}a\end{multicols}
\begin{qqenv}[a]{b}c\end{qqenv}
\begin{titlepage}a\end{titlepage}
\begin{keyword}a\sep b\end{keyword}
\begin{filecontents}{qq}a\end{filecontents}
\begingroup a\endgroup
\bgroup a\egroup
\begin a\end
\itemize\item a\enditemize
\equation a\endequation
\tabular{c}a\endtabular
\bibitem[a]{b}c
\item[a]b
\label{a}
""".strip().split("\n")

MATH = r"""
$a$
$$a$$
\(a\)
\[a\]
$\text{a}b$
$$a\tag{b}\label{c}$$
\[\begin{array}{c}a\\b\end{array}\]
\begin{equation}\begin{aligned}a\end{aligned}\end{equation}
$\ref{a}$
$\includegraphics{a}$
$\mbox{a $b$ c}$
$\qa{b}$
$a\nonumber$
$\left(a\right)$
\qqunknown[a]{b}{c}
{a{b}c}
""".strip().split("\n")

FAMILIES = [CONTENT, AUTHOR, FORMAT, STYLE, DEFS, COND, BOX, ENV, MATH]
ALL = [f for fam in FAMILIES for f in fam]

# constructs whose argument is parsed again: @ marks the place
CONTAINERS = r"""
@
{@}
\section{@}
\paragraph{@}
\footnote{@}
\caption{@}
\title{@}
\abstract{@}
\author{@}
\keywords{@}
\textbf{@}
{\it @}
\text{@}
\mbox{@}
\frac{@}{b}
\href{u}{@}
\hyperref[u]{@}
\cite[@]{c}
\fbox{@}
\parbox{1pt}{@}
\subfloat[@]{b}
\subfloat[b]{@}
\textcolor{red}{@}
\texorpdfstring{@}{b}
$@$
\[@\]
$\text{@}$
\begin{abstract}@\end{abstract}
\begin{figure}@\end{figure}
\begin{table}@\end{table}
\begin{tabular}{cc}@&b\\c&@\end{tabular}
\begin{tabular}{cc}\multicolumn{2}{c}{@}\\\multirow{2}{*}{@}&b\end{tabular}
\begin{itemize}\item @\end{itemize}
\begin{itemize}\item[@] b\end{itemize}
\begin{itemize}@\end{itemize}
\begin{theorem}[@]b\end{theorem}
\begin{theorem}@\end{theorem}
\begin{quote}@\end{quote}
\begin{minipage}{1pt}@\end{minipage}
\begin{equation}@\end{equation}
\begin{align}@&b\\c&@\end{align}
\begin{algorithm}@\end{algorithm}
\begin{algorithmic}\STATE @\end{algorithmic}
\begin{thebibliography}{9}\bibitem{k}@\end{thebibliography}
\begin{qqenv}@\end{qqenv}
\begin{document}@\end{document}
\begingroup @\endgroup
\newcommand{\qz}{@}\qz
\def\qz#1{#1}\qz{@}
\newenvironment{qz}{@}{@}\begin{qz}b\end{qz}
\sbox{\qz}{@}\usebox{\qz}
\iftrue @\else @\fi
\ifthenelse{\equal{a}{b}}{@}{@}
\begin{lstlisting}[title=@]b\end{lstlisting}
""".strip().split("\n")

import re

# stand-alone letters of a form: its arguments
HOLE = re.compile(r"(?<![A-Za-z\\@])[abcd](?![A-Za-z@=])")
