fn <oak_highlight::exporters::AnsiExporter as oak_highlight::exporters::Exporter>::export
  let %1 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "31")), ";")
  let %2 = cat(<lv("L0", "v0"), "[", %1, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %3 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %4 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %5 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %6 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %7 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %8 = cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
  let %9 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "37")), ";")
  let %10 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "36")), ";")
  let %11 = cat(<lv("L0", "v0"), "[", %10, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %12 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "35")), ";")
  let %13 = cat(<lv("L0", "v0"), "[", %12, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %14 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "34")), ";")
  let %15 = cat(<lv("L0", "v0"), "[", %14, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %16 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "33")), ";")
  let %17 = cat(<lv("L0", "v0"), "[", %16, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %18 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "32")), ";")
  let %19 = cat(<lv("L0", "v0"), "[", %18, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %20 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "31")), ";")
  let %21 = cat(<lv("L0", "v0"), "[", %20, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %22 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "37")), ";")
  let %23 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "36")), ";")
  let %24 = cat(<lv("L0", "v0"), "[", %23, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %25 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "35")), ";")
  let %26 = cat(<lv("L0", "v0"), "[", %25, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %27 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "34")), ";")
  let %28 = cat(<lv("L0", "v0"), "[", %27, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %29 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "33")), ";")
  let %30 = cat(<lv("L0", "v0"), "[", %29, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %31 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "32")), ";")
  let %32 = cat(<lv("L0", "v0"), "[", %31, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %33 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "31")), ";")
  let %34 = cat(<lv("L0", "v0"), "[", %33, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %35 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "4")), ";")
  let %36 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "37")), ";")
  let %37 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "36")), ";")
  let %38 = cat(<lv("L0", "v0"), "[", %37, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %39 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "35")), ";")
  let %40 = cat(<lv("L0", "v0"), "[", %39, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %41 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "34")), ";")
  let %42 = cat(<lv("L0", "v0"), "[", %41, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %43 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "33")), ";")
  let %44 = cat(<lv("L0", "v0"), "[", %43, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %45 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "32")), ";")
  let %46 = cat(<lv("L0", "v0"), "[", %45, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %47 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "31")), ";")
  let %48 = cat(<lv("L0", "v0"), "[", %47, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %49 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "37")), ";")
  let %50 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "36")), ";")
  let %51 = cat(<lv("L0", "v0"), "[", %50, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %52 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "35")), ";")
  let %53 = cat(<lv("L0", "v0"), "[", %52, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %54 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "34")), ";")
  let %55 = cat(<lv("L0", "v0"), "[", %54, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %56 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "33")), ";")
  let %57 = cat(<lv("L0", "v0"), "[", %56, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %58 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "32")), ";")
  let %59 = cat(<lv("L0", "v0"), "[", %58, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %60 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "31")), ";")
  let %61 = cat(<lv("L0", "v0"), "[", %60, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %62 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "4")), ";")
  let %63 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "37")), ";")
  let %64 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "36")), ";")
  let %65 = cat(<lv("L0", "v0"), "[", %64, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %66 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "35")), ";")
  let %67 = cat(<lv("L0", "v0"), "[", %66, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %68 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "34")), ";")
  let %69 = cat(<lv("L0", "v0"), "[", %68, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %70 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "33")), ";")
  let %71 = cat(<lv("L0", "v0"), "[", %70, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %72 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "32")), ";")
  let %73 = cat(<lv("L0", "v0"), "[", %72, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %74 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "31")), ";")
  let %75 = cat(<lv("L0", "v0"), "[", %74, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %76 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "3")), ";")
  let %77 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "37")), ";")
  let %78 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "36")), ";")
  let %79 = cat(<lv("L0", "v0"), "[", %78, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %80 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "35")), ";")
  let %81 = cat(<lv("L0", "v0"), "[", %80, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %82 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "34")), ";")
  let %83 = cat(<lv("L0", "v0"), "[", %82, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %84 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "33")), ";")
  let %85 = cat(<lv("L0", "v0"), "[", %84, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %86 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "32")), ";")
  let %87 = cat(<lv("L0", "v0"), "[", %86, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %88 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "31")), ";")
  let %89 = cat(<lv("L0", "v0"), "[", %88, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %90 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4")), ";")
  let %91 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "37")), ";")
  let %92 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "36")), ";")
  let %93 = cat(<lv("L0", "v0"), "[", %92, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %94 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "35")), ";")
  let %95 = cat(<lv("L0", "v0"), "[", %94, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %96 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "34")), ";")
  let %97 = cat(<lv("L0", "v0"), "[", %96, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %98 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "33")), ";")
  let %99 = cat(<lv("L0", "v0"), "[", %98, "m", (*$1).segments[n("L0")].text, "[0m">)
  let %100 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "32")), ";")
  let %101 = cat(<lv("L0", "v0"), "[", %100, "m", (*$1).segments[n("L0")].text, "[0m">)
case
  if (len((*$1).segments) < n("L0") + 1)
  loop L0 | v0 from ""
  ret lv("L0", "v0")
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %1
  then v0 := %2
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$1).segments[n("L0")].text>)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "37")), ";")
  then v0 := cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "37")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  then v0 := %3
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  then v0 := %3
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  then v0 := %3
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  then v0 := %4
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  then v0 := %4
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  then v0 := %4
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  then v0 := %5
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  then v0 := %5
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  then v0 := %5
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  then v0 := %6
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  then v0 := %6
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  then v0 := %6
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  then v0 := %7
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  then v0 := %7
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  then v0 := %7
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  then v0 := %8
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  then v0 := %8
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  then v0 := %8
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  then v0 := %8
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "4")), ";")
  then v0 := cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "4")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %9
  then v0 := cat(<lv("L0", "v0"), "[", %9, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %10
  then v0 := %11
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %10
  then v0 := %11
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %10
  then v0 := %11
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %12
  then v0 := %13
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %12
  then v0 := %13
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %12
  then v0 := %13
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %14
  then v0 := %15
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %14
  then v0 := %15
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %14
  then v0 := %15
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %16
  then v0 := %17
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %16
  then v0 := %17
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %16
  then v0 := %17
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %18
  then v0 := %19
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %18
  then v0 := %19
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %18
  then v0 := %19
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %20
  then v0 := %21
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %20
  then v0 := %21
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %20
  then v0 := %21
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %20
  then v0 := %21
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "3")), ";")
  then v0 := cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "3")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %22
  then v0 := cat(<lv("L0", "v0"), "[", %22, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %23
  then v0 := %24
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %23
  then v0 := %24
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %23
  then v0 := %24
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %25
  then v0 := %26
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %25
  then v0 := %26
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %25
  then v0 := %26
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %27
  then v0 := %28
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %27
  then v0 := %28
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %27
  then v0 := %28
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %29
  then v0 := %30
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %29
  then v0 := %30
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %29
  then v0 := %30
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %31
  then v0 := %32
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %31
  then v0 := %32
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %31
  then v0 := %32
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %33
  then v0 := %34
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %33
  then v0 := %34
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %33
  then v0 := %34
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %33
  then v0 := %34
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do %35
  then v0 := cat(<lv("L0", "v0"), "[", %35, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %36
  then v0 := cat(<lv("L0", "v0"), "[", %36, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %37
  then v0 := %38
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %37
  then v0 := %38
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %37
  then v0 := %38
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %39
  then v0 := %40
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %39
  then v0 := %40
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %39
  then v0 := %40
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %41
  then v0 := %42
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %41
  then v0 := %42
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %41
  then v0 := %42
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %43
  then v0 := %44
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %43
  then v0 := %44
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %43
  then v0 := %44
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %45
  then v0 := %46
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %45
  then v0 := %46
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %45
  then v0 := %46
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %47
  then v0 := %48
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %47
  then v0 := %48
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %47
  then v0 := %48
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %47
  then v0 := %48
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "1")), ";")
  then v0 := cat(<lv("L0", "v0"), "[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "1")), ";"), "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %49
  then v0 := cat(<lv("L0", "v0"), "[", %49, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %50
  then v0 := %51
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %50
  then v0 := %51
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %50
  then v0 := %51
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %52
  then v0 := %53
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %52
  then v0 := %53
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %52
  then v0 := %53
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %54
  then v0 := %55
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %54
  then v0 := %55
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %54
  then v0 := %55
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %56
  then v0 := %57
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %56
  then v0 := %57
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %56
  then v0 := %57
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %58
  then v0 := %59
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %58
  then v0 := %59
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %58
  then v0 := %59
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %60
  then v0 := %61
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %60
  then v0 := %61
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %60
  then v0 := %61
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %60
  then v0 := %61
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do %62
  then v0 := cat(<lv("L0", "v0"), "[", %62, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %63
  then v0 := cat(<lv("L0", "v0"), "[", %63, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %64
  then v0 := %65
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %64
  then v0 := %65
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %64
  then v0 := %65
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %66
  then v0 := %67
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %66
  then v0 := %67
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %66
  then v0 := %67
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %68
  then v0 := %69
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %68
  then v0 := %69
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %68
  then v0 := %69
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %70
  then v0 := %71
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %70
  then v0 := %71
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %70
  then v0 := %71
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %72
  then v0 := %73
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %72
  then v0 := %73
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %72
  then v0 := %73
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %74
  then v0 := %75
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %74
  then v0 := %75
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %74
  then v0 := %75
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if not true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %74
  then v0 := %75
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do %76
  then v0 := cat(<lv("L0", "v0"), "[", %76, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %77
  then v0 := cat(<lv("L0", "v0"), "[", %77, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %78
  then v0 := %79
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %78
  then v0 := %79
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %78
  then v0 := %79
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %80
  then v0 := %81
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %80
  then v0 := %81
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %80
  then v0 := %81
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %82
  then v0 := %83
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %82
  then v0 := %83
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %82
  then v0 := %83
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %84
  then v0 := %85
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %84
  then v0 := %85
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %84
  then v0 := %85
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %86
  then v0 := %87
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %86
  then v0 := %87
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %86
  then v0 := %87
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %88
  then v0 := %89
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %88
  then v0 := %89
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %88
  then v0 := %89
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if not true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %88
  then v0 := %89
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if not ((*$1).segments[n("L0")].style.color is Some)
  loop L0 | v0 from ""
  do %90
  then v0 := cat(<lv("L0", "v0"), "[", %90, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %91
  then v0 := cat(<lv("L0", "v0"), "[", %91, "m", (*$1).segments[n("L0")].text, "[0m">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#2AA198" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %92
  then v0 := %93
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#9CDCFE" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %92
  then v0 := %93
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FFFF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %92
  then v0 := %93
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#D73A49" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %94
  then v0 := %95
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF79C6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %94
  then v0 := %95
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF00FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %94
  then v0 := %95
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#005CC5" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %96
  then v0 := %97
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#569CD6" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %96
  then v0 := %97
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#0000FF" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %96
  then v0 := %97
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#E6DB74" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %98
  then v0 := %99
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F1FA8C" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %98
  then v0 := %99
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FFFF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %98
  then v0 := %99
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#859900" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %100
  then v0 := %101
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#6A9955" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %100
  then v0 := %101
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#00FF00" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %100
  then v0 := %101
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#FF5555" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %1
  then v0 := %2
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if not ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#DC322F" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %1
  then v0 := %2
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$1).segments[n("L0")].style.bold)
  if true((*$1).segments[n("L0")].style.italic)
  if true((*$1).segments[n("L0")].style.underline)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not ("#FF0000" === (*$1).segments[n("L0")].style.color@Some.0)
  if ("#F44747" === (*$1).segments[n("L0")].style.color@Some.0)
  loop L0 | v0 from ""
  do %1
  then v0 := %2

fn <oak_highlight::exporters::CssExporter as oak_highlight::exporters::Exporter>::export
case
  ret ".highlight {\n  font-family: 'Courier New', monospace;\n  white-space: pre;\n}\n\n.highlight .bold { font-weight: bold }\n.highlight .italic { font-style: italic }\n.highlight .underline { text-decoration: underline }\n"

fn <oak_highlight::exporters::HtmlExporter as oak_highlight::exporters::Exporter>::export
  given oak_highlight::exporters::HtmlExporter::segment_to_html_class
  given oak_highlight::exporters::HtmlExporter::segment_to_html_inline
  let %1 = call "oak_highlight::exporters::HtmlExporter::segment_to_html_inline"($0, rv((*$1).segments[n("L0")]))
  let %2 = call "oak_highlight::exporters::HtmlExporter::segment_to_html_class"($0, rv((*$1).segments[n("L0")]))
case
  if true((*$0).include_css)
  if (len((*$1).segments) < n("L0") + 1)
  loop L0 | v0 from "<style>\n.highlight { font-family: 'Courier New', monospace; white-space: pre }\n.highlight .bold { font-weight: bold }\n.highlight .italic { font-style: italic }\n.highlight .underline { text-decoration: underline }\n</style>\n<div class=\"highlight\">"
  ret cat(<lv("L0", "v0"), "</div>">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$0).inline_styles)
  loop L0 | v0 from "<style>\n.highlight { font-family: 'Courier New', monospace; white-space: pre }\n.highlight .bold { font-weight: bold }\n.highlight .italic { font-style: italic }\n.highlight .underline { text-decoration: underline }\n</style>\n<div class=\"highlight\">"
  do %1
  then v0 := cat(<lv("L0", "v0"), %1>)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$0).inline_styles)
  loop L0 | v0 from "<style>\n.highlight { font-family: 'Courier New', monospace; white-space: pre }\n.highlight .bold { font-weight: bold }\n.highlight .italic { font-style: italic }\n.highlight .underline { text-decoration: underline }\n</style>\n<div class=\"highlight\">"
  do %2
  then v0 := cat(<lv("L0", "v0"), %2>)
case
  if not true((*$0).include_css)
  if (len((*$1).segments) < n("L0") + 1)
  loop L0 | v0 from "<div class=\"highlight\">"
  ret cat(<lv("L0", "v0"), "</div>">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if true((*$0).inline_styles)
  loop L0 | v0 from "<div class=\"highlight\">"
  do %1
  then v0 := cat(<lv("L0", "v0"), %1>)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not true((*$0).inline_styles)
  loop L0 | v0 from "<div class=\"highlight\">"
  do %2
  then v0 := cat(<lv("L0", "v0"), %2>)

fn <oak_highlight::exporters::JsonExporter as oak_highlight::exporters::Exporter>::export
  let %1 = call "str::chars"((*$1).segments[n("L0")].style.color@Some.0)
  let %2 = call "str::chars"((*$1).segments[n("L0")].style.background_color@Some.0)
  let %3 = (len(call "str::chars"((*$1).segments[n("L0")].text)) < n("L3") + 1)
  let %4 = vpush(vpush(vpush(vnew(), cat(<"\"bold\":", display('bool', (*$1).segments[n("L0")].style.bold)>)), cat(<"\"italic\":", display('bool', (*$1).segments[n("L0")].style.italic)>)), cat(<"\"underline\":", display('bool', (*$1).segments[n("L0")].style.underline)>))
  let %5 = call "[T]::join"(rv(vpush(vpush(%4, cat(<"\"color\":\"", lv("L1", "v0"), "\"">)), cat(<"\"background_color\":\"", lv("L2", "v0"), "\"">))), ",")
  let %6 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 34)
  let %7 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 92)
  let %8 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 8)
  let %9 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 12)
  let %10 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 10)
  let %11 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 13)
  let %12 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L3")] == 9)
  let %13 = call "char::is_control"(call "str::chars"((*$1).segments[n("L0")].text)[n("L3")])
  let %14 = (n("L2") < len(call "str::chars"((*$1).segments[n("L0")].text)))
  let %15 = call "[T]::join"(rv(vpush(%4, cat(<"\"color\":\"", lv("L1", "v0"), "\"">))), ",")
  let %16 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 34)
  let %17 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 92)
  let %18 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 8)
  let %19 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 12)
  let %20 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 10)
  let %21 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 13)
  let %22 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L2")] == 9)
  let %23 = call "char::is_control"(call "str::chars"((*$1).segments[n("L0")].text)[n("L2")])
  let %24 = call "[T]::join"(rv(vpush(%4, cat(<"\"background_color\":\"", lv("L1", "v0"), "\"">))), ",")
  let %25 = (n("L1") < len(call "str::chars"((*$1).segments[n("L0")].text)))
  let %26 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 34)
  let %27 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 92)
  let %28 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 8)
  let %29 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 12)
  let %30 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 10)
  let %31 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 13)
  let %32 = (call "str::chars"((*$1).segments[n("L0")].text)[n("L1")] == 9)
  let %33 = call "char::is_control"(call "str::chars"((*$1).segments[n("L0")].text)[n("L1")])
  let %34 = call "char::is_control"(call "str::chars"((*$1).source)[n("L1")])
case
  if (len((*$1).segments) < n("L0") + 1)
  if (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  ret cat(<lv("L0", "v0"), "],\"source\":\"", lv("L1", "v0"), "\"}">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if (n("L0") < 1)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not (n("L1") < len(%1))
  if ((*$1).segments[n("L0")].style.background_color is Some)
  if (len(%2) < n("L2") + 1)
  if %3
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1 | v0 from ""
  loop L2 @2 | v0 from ""
  loop L3 @3 | v0 from ""
  do %5
  then v0 := cat(<lv("L0", "v0"), "{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %5, "},\"text\":\"", lv("L3", "v0"), "\"}">)
pass L1
  if (n("L1") < len(%1))
  if (%1[n("L1")] == 34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\"">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if not (%1[n("L1")] == 12)
  if not (%1[n("L1")] == 10)
  if not (%1[n("L1")] == 13)
  if not (%1[n("L1")] == 9)
  if true(call "char::is_control"(%1[n("L1")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  do call "char::is_control"(%1[n("L1")])
  then v0 := cat(<lv("L1", "v0"), "\\u", display('x:f69000020,w4', %1[n("L1")])>)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if not (%1[n("L1")] == 12)
  if not (%1[n("L1")] == 10)
  if not (%1[n("L1")] == 13)
  if not (%1[n("L1")] == 9)
  if not true(call "char::is_control"(%1[n("L1")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  do call "char::is_control"(%1[n("L1")])
  then v0 := cat(<lv("L1", "v0"), call "char"(%1[n("L1")])>)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if not (%1[n("L1")] == 12)
  if not (%1[n("L1")] == 10)
  if not (%1[n("L1")] == 13)
  if (%1[n("L1")] == 9)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\t">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if not (%1[n("L1")] == 12)
  if not (%1[n("L1")] == 10)
  if (%1[n("L1")] == 13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\r">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if not (%1[n("L1")] == 12)
  if (%1[n("L1")] == 10)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\n">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if not (%1[n("L1")] == 8)
  if (%1[n("L1")] == 12)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\f">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if not (%1[n("L1")] == 92)
  if (%1[n("L1")] == 8)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\b">)
pass L1
  if (n("L1") < len(%1))
  if not (%1[n("L1")] == 34)
  if (%1[n("L1")] == 92)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\\">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if (%2[n("L2")] == 34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\\"">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if not (%2[n("L2")] == 12)
  if not (%2[n("L2")] == 10)
  if not (%2[n("L2")] == 13)
  if not (%2[n("L2")] == 9)
  if true(call "char::is_control"(%2[n("L2")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  do call "char::is_control"(%2[n("L2")])
  then v0 := cat(<lv("L2", "v0"), "\\u", display('x:f69000020,w4', %2[n("L2")])>)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if not (%2[n("L2")] == 12)
  if not (%2[n("L2")] == 10)
  if not (%2[n("L2")] == 13)
  if not (%2[n("L2")] == 9)
  if not true(call "char::is_control"(%2[n("L2")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  do call "char::is_control"(%2[n("L2")])
  then v0 := cat(<lv("L2", "v0"), call "char"(%2[n("L2")])>)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if not (%2[n("L2")] == 12)
  if not (%2[n("L2")] == 10)
  if not (%2[n("L2")] == 13)
  if (%2[n("L2")] == 9)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\t">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if not (%2[n("L2")] == 12)
  if not (%2[n("L2")] == 10)
  if (%2[n("L2")] == 13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\r">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if not (%2[n("L2")] == 12)
  if (%2[n("L2")] == 10)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\n">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if not (%2[n("L2")] == 8)
  if (%2[n("L2")] == 12)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\f">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if not (%2[n("L2")] == 92)
  if (%2[n("L2")] == 8)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\b">)
pass L2
  if not (len(%2) < n("L2") + 1)
  if not (%2[n("L2")] == 34)
  if (%2[n("L2")] == 92)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\\\">)
pass L3
  if not %3
  if %6
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\\"">)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if not %9
  if not %10
  if not %11
  if not %12
  if true(%13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  do %13
  then v0 := cat(<lv("L3", "v0"), "\\u", display('x:f69000020,w4', call "str::chars"((*$1).segments[n("L0")].text)[n("L3")])>)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if not %9
  if not %10
  if not %11
  if not %12
  if not true(%13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  do %13
  then v0 := cat(<lv("L3", "v0"), call "char"(call "str::chars"((*$1).segments[n("L0")].text)[n("L3")])>)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if not %9
  if not %10
  if not %11
  if %12
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\t">)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if not %9
  if not %10
  if %11
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\r">)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if not %9
  if %10
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\n">)
pass L3
  if not %3
  if not %6
  if not %7
  if not %8
  if %9
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\f">)
pass L3
  if not %3
  if not %6
  if not %7
  if %8
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\b">)
pass L3
  if not %3
  if not %6
  if %7
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4 | v0 from ""
  loop L2 @2,5 | v0 from ""
  loop L3 | v0 from ""
  then v0 := cat(<lv("L3", "v0"), "\\\\">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if (n("L0") < 1)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not (n("L1") < len(%1))
  if not ((*$1).segments[n("L0")].style.background_color is Some)
  if not %14
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1 | v0 from ""
  loop L2 @6 | v0 from ""
  do %15
  then v0 := cat(<lv("L0", "v0"), "{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %15, "},\"text\":\"", lv("L2", "v0"), "\"}">)
pass L2
  if %14
  if %16
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\\"">)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if not %19
  if not %20
  if not %21
  if not %22
  if true(%23)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  do %23
  then v0 := cat(<lv("L2", "v0"), "\\u", display('x:f69000020,w4', call "str::chars"((*$1).segments[n("L0")].text)[n("L2")])>)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if not %19
  if not %20
  if not %21
  if not %22
  if not true(%23)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  do %23
  then v0 := cat(<lv("L2", "v0"), call "char"(call "str::chars"((*$1).segments[n("L0")].text)[n("L2")])>)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if not %19
  if not %20
  if not %21
  if %22
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\t">)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if not %19
  if not %20
  if %21
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\r">)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if not %19
  if %20
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\n">)
pass L2
  if %14
  if not %16
  if not %17
  if not %18
  if %19
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\f">)
pass L2
  if %14
  if not %16
  if not %17
  if %18
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\b">)
pass L2
  if %14
  if not %16
  if %17
  loop L0 | v0 from "{\"segments\":["
  loop L1 @1,4,7,8 | v0 from ""
  loop L2 @6,9,10,11 | v0 from ""
  then v0 := cat(<lv("L2", "v0"), "\\\\">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if (n("L0") < 1)
  if not ((*$1).segments[n("L0")].style.color is Some)
  if ((*$1).segments[n("L0")].style.background_color is Some)
  if not (n("L1") < len(%2))
  if not %14
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7 | v0 from ""
  loop L2 @9 | v0 from ""
  do %24
  then v0 := cat(<lv("L0", "v0"), "{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %24, "},\"text\":\"", lv("L2", "v0"), "\"}">)
pass L1
  if (n("L1") < len(%2))
  if (%2[n("L1")] == 34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\"">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if not (%2[n("L1")] == 12)
  if not (%2[n("L1")] == 10)
  if not (%2[n("L1")] == 13)
  if not (%2[n("L1")] == 9)
  if true(call "char::is_control"(%2[n("L1")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  do call "char::is_control"(%2[n("L1")])
  then v0 := cat(<lv("L1", "v0"), "\\u", display('x:f69000020,w4', %2[n("L1")])>)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if not (%2[n("L1")] == 12)
  if not (%2[n("L1")] == 10)
  if not (%2[n("L1")] == 13)
  if not (%2[n("L1")] == 9)
  if not true(call "char::is_control"(%2[n("L1")]))
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  do call "char::is_control"(%2[n("L1")])
  then v0 := cat(<lv("L1", "v0"), call "char"(%2[n("L1")])>)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if not (%2[n("L1")] == 12)
  if not (%2[n("L1")] == 10)
  if not (%2[n("L1")] == 13)
  if (%2[n("L1")] == 9)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\t">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if not (%2[n("L1")] == 12)
  if not (%2[n("L1")] == 10)
  if (%2[n("L1")] == 13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\r">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if not (%2[n("L1")] == 12)
  if (%2[n("L1")] == 10)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\n">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if not (%2[n("L1")] == 8)
  if (%2[n("L1")] == 12)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\f">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if not (%2[n("L1")] == 92)
  if (%2[n("L1")] == 8)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\b">)
pass L1
  if (n("L1") < len(%2))
  if not (%2[n("L1")] == 34)
  if (%2[n("L1")] == 92)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @7,8 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\\">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if (n("L0") < 1)
  if not ((*$1).segments[n("L0")].style.color is Some)
  if not ((*$1).segments[n("L0")].style.background_color is Some)
  if not %25
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12 | v0 from ""
  do call "[T]::join"(rv(%4), ",")
  then v0 := cat(<lv("L0", "v0"), "{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", call "[T]::join"(rv(%4), ","), "},\"text\":\"", lv("L1", "v0"), "\"}">)
pass L1
  if %25
  if %26
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\"">)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if not %29
  if not %30
  if not %31
  if not %32
  if true(%33)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  do %33
  then v0 := cat(<lv("L1", "v0"), "\\u", display('x:f69000020,w4', call "str::chars"((*$1).segments[n("L0")].text)[n("L1")])>)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if not %29
  if not %30
  if not %31
  if not %32
  if not true(%33)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  do %33
  then v0 := cat(<lv("L1", "v0"), call "char"(call "str::chars"((*$1).segments[n("L0")].text)[n("L1")])>)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if not %29
  if not %30
  if not %31
  if %32
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\t">)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if not %29
  if not %30
  if %31
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\r">)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if not %29
  if %30
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\n">)
pass L1
  if %25
  if not %26
  if not %27
  if not %28
  if %29
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\f">)
pass L1
  if %25
  if not %26
  if not %27
  if %28
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\b">)
pass L1
  if %25
  if not %26
  if %27
  loop L0 | v0 from "{\"segments\":["
  loop L1 @12,13 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\\">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not (n("L0") < 1)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not (n("L1") < len(%1))
  if ((*$1).segments[n("L0")].style.background_color is Some)
  if (len(%2) < n("L2") + 1)
  if %3
  loop L0 | v0 from "{\"segments\":["
  loop L1 @4 | v0 from ""
  loop L2 @5 | v0 from ""
  loop L3 @14 | v0 from ""
  do %5
  then v0 := cat(<lv("L0", "v0"), ",{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %5, "},\"text\":\"", lv("L3", "v0"), "\"}">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not (n("L0") < 1)
  if ((*$1).segments[n("L0")].style.color is Some)
  if not (n("L1") < len(%1))
  if not ((*$1).segments[n("L0")].style.background_color is Some)
  if not %14
  loop L0 | v0 from "{\"segments\":["
  loop L1 @4 | v0 from ""
  loop L2 @10 | v0 from ""
  do %15
  then v0 := cat(<lv("L0", "v0"), ",{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %15, "},\"text\":\"", lv("L2", "v0"), "\"}">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not (n("L0") < 1)
  if not ((*$1).segments[n("L0")].style.color is Some)
  if ((*$1).segments[n("L0")].style.background_color is Some)
  if not (n("L1") < len(%2))
  if not %14
  loop L0 | v0 from "{\"segments\":["
  loop L1 @8 | v0 from ""
  loop L2 @11 | v0 from ""
  do %24
  then v0 := cat(<lv("L0", "v0"), ",{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", %24, "},\"text\":\"", lv("L2", "v0"), "\"}">)
pass L0
  if not (len((*$1).segments) < n("L0") + 1)
  if not (n("L0") < 1)
  if not ((*$1).segments[n("L0")].style.color is Some)
  if not ((*$1).segments[n("L0")].style.background_color is Some)
  if not %25
  loop L0 | v0 from "{\"segments\":["
  loop L1 @13 | v0 from ""
  do call "[T]::join"(rv(%4), ",")
  then v0 := cat(<lv("L0", "v0"), ",{\"span\":{\"start\":", display('d', (*$1).segments[n("L0")].span.start), ",\"end\":", display('d', (*$1).segments[n("L0")].span.end), "},\"style\":{", call "[T]::join"(rv(%4), ","), "},\"text\":\"", lv("L1", "v0"), "\"}">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if (call "str::chars"((*$1).source)[n("L1")] == 34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\"">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if not (call "str::chars"((*$1).source)[n("L1")] == 12)
  if not (call "str::chars"((*$1).source)[n("L1")] == 10)
  if not (call "str::chars"((*$1).source)[n("L1")] == 13)
  if not (call "str::chars"((*$1).source)[n("L1")] == 9)
  if true(%34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  do %34
  then v0 := cat(<lv("L1", "v0"), "\\u", display('x:f69000020,w4', call "str::chars"((*$1).source)[n("L1")])>)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if not (call "str::chars"((*$1).source)[n("L1")] == 12)
  if not (call "str::chars"((*$1).source)[n("L1")] == 10)
  if not (call "str::chars"((*$1).source)[n("L1")] == 13)
  if not (call "str::chars"((*$1).source)[n("L1")] == 9)
  if not true(%34)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  do %34
  then v0 := cat(<lv("L1", "v0"), call "char"(call "str::chars"((*$1).source)[n("L1")])>)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if not (call "str::chars"((*$1).source)[n("L1")] == 12)
  if not (call "str::chars"((*$1).source)[n("L1")] == 10)
  if not (call "str::chars"((*$1).source)[n("L1")] == 13)
  if (call "str::chars"((*$1).source)[n("L1")] == 9)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\t">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if not (call "str::chars"((*$1).source)[n("L1")] == 12)
  if not (call "str::chars"((*$1).source)[n("L1")] == 10)
  if (call "str::chars"((*$1).source)[n("L1")] == 13)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\r">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if not (call "str::chars"((*$1).source)[n("L1")] == 12)
  if (call "str::chars"((*$1).source)[n("L1")] == 10)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\n">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if not (call "str::chars"((*$1).source)[n("L1")] == 8)
  if (call "str::chars"((*$1).source)[n("L1")] == 12)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\f">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if not (call "str::chars"((*$1).source)[n("L1")] == 92)
  if (call "str::chars"((*$1).source)[n("L1")] == 8)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\b">)
pass L1
  if not (len(call "str::chars"((*$1).source)) < n("L1") + 1)
  if not (call "str::chars"((*$1).source)[n("L1")] == 34)
  if (call "str::chars"((*$1).source)[n("L1")] == 92)
  loop L0 | v0 from "{\"segments\":["
  loop L1 @0 | v0 from ""
  then v0 := cat(<lv("L1", "v0"), "\\\\">)

fn oak_highlight::exporters::AnsiExporter::segment_to_ansi  [private]
  takes &oak_highlight::exporters::AnsiExporter; &oak_highlight::highlighter::HighlightSegment<>
  let %1 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "31")), ";")
  let %2 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "32")), ";")
  let %3 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "33")), ";")
  let %4 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "34")), ";")
  let %5 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "35")), ";")
  let %6 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "36")), ";")
  let %7 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4"), "37")), ";")
  let %8 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "4")), ";")
  let %9 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "31")), ";")
  let %10 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "32")), ";")
  let %11 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "33")), ";")
  let %12 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "34")), ";")
  let %13 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "35")), ";")
  let %14 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "36")), ";")
  let %15 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "3"), "37")), ";")
  let %16 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "3")), ";")
  let %17 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "31")), ";")
  let %18 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "32")), ";")
  let %19 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "33")), ";")
  let %20 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "34")), ";")
  let %21 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "35")), ";")
  let %22 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "36")), ";")
  let %23 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "1"), "4"), "37")), ";")
  let %24 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "4")), ";")
  let %25 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "31")), ";")
  let %26 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "32")), ";")
  let %27 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "33")), ";")
  let %28 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "34")), ";")
  let %29 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "35")), ";")
  let %30 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "36")), ";")
  let %31 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "1"), "37")), ";")
  let %32 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "31")), ";")
  let %33 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "32")), ";")
  let %34 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "33")), ";")
  let %35 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "34")), ";")
  let %36 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "35")), ";")
  let %37 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "36")), ";")
  let %38 = call "[T]::join"(rv(vpush(vpush(vpush(vpush(vnew(), "0"), "3"), "4"), "37")), ";")
  let %39 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "4")), ";")
  let %40 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "31")), ";")
  let %41 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "32")), ";")
  let %42 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "33")), ";")
  let %43 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "34")), ";")
  let %44 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "35")), ";")
  let %45 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "36")), ";")
  let %46 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "3"), "37")), ";")
  let %47 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "31")), ";")
  let %48 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "32")), ";")
  let %49 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "33")), ";")
  let %50 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "34")), ";")
  let %51 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "35")), ";")
  let %52 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "36")), ";")
  let %53 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "0"), "4"), "37")), ";")
  let %54 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";"), "m", (*$1).text, "[0m">)
  let %55 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";"), "m", (*$1).text, "[0m">)
  let %56 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";"), "m", (*$1).text, "[0m">)
  let %57 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";"), "m", (*$1).text, "[0m">)
  let %58 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";"), "m", (*$1).text, "[0m">)
  let %59 = cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";"), "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %1
  ret cat(<"[", %1, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %1
  ret cat(<"[", %1, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %1
  ret cat(<"[", %1, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %1
  ret cat(<"[", %1, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %2
  ret cat(<"[", %2, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %2
  ret cat(<"[", %2, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %2
  ret cat(<"[", %2, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %3
  ret cat(<"[", %3, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %3
  ret cat(<"[", %3, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %3
  ret cat(<"[", %3, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %4
  ret cat(<"[", %4, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %4
  ret cat(<"[", %4, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %4
  ret cat(<"[", %4, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %5
  ret cat(<"[", %5, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %5
  ret cat(<"[", %5, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %5
  ret cat(<"[", %5, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %6
  ret cat(<"[", %6, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %6
  ret cat(<"[", %6, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %6
  ret cat(<"[", %6, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %7
  ret cat(<"[", %7, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do %8
  ret cat(<"[", %8, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %9
  ret cat(<"[", %9, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %9
  ret cat(<"[", %9, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %9
  ret cat(<"[", %9, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %9
  ret cat(<"[", %9, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %10
  ret cat(<"[", %10, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %10
  ret cat(<"[", %10, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %10
  ret cat(<"[", %10, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %11
  ret cat(<"[", %11, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %11
  ret cat(<"[", %11, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %11
  ret cat(<"[", %11, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %12
  ret cat(<"[", %12, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %12
  ret cat(<"[", %12, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %12
  ret cat(<"[", %12, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %13
  ret cat(<"[", %13, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %13
  ret cat(<"[", %13, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %13
  ret cat(<"[", %13, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %14
  ret cat(<"[", %14, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %14
  ret cat(<"[", %14, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %14
  ret cat(<"[", %14, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %15
  ret cat(<"[", %15, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do %16
  ret cat(<"[", %16, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %17
  ret cat(<"[", %17, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %17
  ret cat(<"[", %17, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %17
  ret cat(<"[", %17, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %17
  ret cat(<"[", %17, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %18
  ret cat(<"[", %18, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %18
  ret cat(<"[", %18, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %18
  ret cat(<"[", %18, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %19
  ret cat(<"[", %19, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %19
  ret cat(<"[", %19, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %19
  ret cat(<"[", %19, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %20
  ret cat(<"[", %20, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %20
  ret cat(<"[", %20, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %20
  ret cat(<"[", %20, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %21
  ret cat(<"[", %21, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %21
  ret cat(<"[", %21, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %21
  ret cat(<"[", %21, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %22
  ret cat(<"[", %22, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %22
  ret cat(<"[", %22, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %22
  ret cat(<"[", %22, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %23
  ret cat(<"[", %23, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do %24
  ret cat(<"[", %24, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %25
  ret cat(<"[", %25, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %25
  ret cat(<"[", %25, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %25
  ret cat(<"[", %25, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %25
  ret cat(<"[", %25, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %26
  ret cat(<"[", %26, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %26
  ret cat(<"[", %26, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %26
  ret cat(<"[", %26, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %27
  ret cat(<"[", %27, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %27
  ret cat(<"[", %27, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %27
  ret cat(<"[", %27, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %28
  ret cat(<"[", %28, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %28
  ret cat(<"[", %28, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %28
  ret cat(<"[", %28, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %29
  ret cat(<"[", %29, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %29
  ret cat(<"[", %29, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %29
  ret cat(<"[", %29, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %30
  ret cat(<"[", %30, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %30
  ret cat(<"[", %30, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %30
  ret cat(<"[", %30, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %31
  ret cat(<"[", %31, "m", (*$1).text, "[0m">)
case
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "1")), ";")
  ret cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "1")), ";"), "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %32
  ret cat(<"[", %32, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %32
  ret cat(<"[", %32, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %32
  ret cat(<"[", %32, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %32
  ret cat(<"[", %32, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %33
  ret cat(<"[", %33, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %33
  ret cat(<"[", %33, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %33
  ret cat(<"[", %33, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %34
  ret cat(<"[", %34, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %34
  ret cat(<"[", %34, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %34
  ret cat(<"[", %34, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %35
  ret cat(<"[", %35, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %35
  ret cat(<"[", %35, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %35
  ret cat(<"[", %35, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %36
  ret cat(<"[", %36, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %36
  ret cat(<"[", %36, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %36
  ret cat(<"[", %36, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %37
  ret cat(<"[", %37, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %37
  ret cat(<"[", %37, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %37
  ret cat(<"[", %37, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %38
  ret cat(<"[", %38, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do %39
  ret cat(<"[", %39, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %40
  ret cat(<"[", %40, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %40
  ret cat(<"[", %40, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %40
  ret cat(<"[", %40, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %40
  ret cat(<"[", %40, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %41
  ret cat(<"[", %41, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %41
  ret cat(<"[", %41, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %41
  ret cat(<"[", %41, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %42
  ret cat(<"[", %42, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %42
  ret cat(<"[", %42, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %42
  ret cat(<"[", %42, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %43
  ret cat(<"[", %43, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %43
  ret cat(<"[", %43, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %43
  ret cat(<"[", %43, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %44
  ret cat(<"[", %44, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %44
  ret cat(<"[", %44, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %44
  ret cat(<"[", %44, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %45
  ret cat(<"[", %45, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %45
  ret cat(<"[", %45, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %45
  ret cat(<"[", %45, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %46
  ret cat(<"[", %46, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "3")), ";")
  ret cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "3")), ";"), "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do %47
  ret cat(<"[", %47, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do %47
  ret cat(<"[", %47, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do %47
  ret cat(<"[", %47, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do %47
  ret cat(<"[", %47, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do %48
  ret cat(<"[", %48, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do %48
  ret cat(<"[", %48, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do %48
  ret cat(<"[", %48, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do %49
  ret cat(<"[", %49, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do %49
  ret cat(<"[", %49, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do %49
  ret cat(<"[", %49, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do %50
  ret cat(<"[", %50, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do %50
  ret cat(<"[", %50, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do %50
  ret cat(<"[", %50, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do %51
  ret cat(<"[", %51, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do %51
  ret cat(<"[", %51, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do %51
  ret cat(<"[", %51, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do %52
  ret cat(<"[", %52, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do %52
  ret cat(<"[", %52, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do %52
  ret cat(<"[", %52, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do %53
  ret cat(<"[", %53, "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "4")), ";")
  ret cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "4")), ";"), "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if ("#FF0000" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  ret %54
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if ("#F44747" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  ret %54
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if ("#DC322F" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  ret %54
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if ("#FF5555" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "31")), ";")
  ret %54
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if ("#00FF00" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  ret %55
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if ("#6A9955" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  ret %55
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if ("#859900" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "32")), ";")
  ret %55
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if ("#FFFF00" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  ret %56
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if ("#F1FA8C" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  ret %56
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if ("#E6DB74" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "33")), ";")
  ret %56
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if ("#0000FF" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  ret %57
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if ("#569CD6" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  ret %57
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if ("#005CC5" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "34")), ";")
  ret %57
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if ("#FF00FF" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  ret %58
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if ("#FF79C6" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  ret %58
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if ("#D73A49" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "35")), ";")
  ret %58
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if ("#00FFFF" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  ret %59
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if ("#9CDCFE" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  ret %59
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if ("#2AA198" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "36")), ";")
  ret %59
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if ((*$1).style.color is Some)
  if not ("#FF0000" === (*$1).style.color@Some.0)
  if not ("#F44747" === (*$1).style.color@Some.0)
  if not ("#DC322F" === (*$1).style.color@Some.0)
  if not ("#FF5555" === (*$1).style.color@Some.0)
  if not ("#00FF00" === (*$1).style.color@Some.0)
  if not ("#6A9955" === (*$1).style.color@Some.0)
  if not ("#859900" === (*$1).style.color@Some.0)
  if not ("#FFFF00" === (*$1).style.color@Some.0)
  if not ("#F1FA8C" === (*$1).style.color@Some.0)
  if not ("#E6DB74" === (*$1).style.color@Some.0)
  if not ("#0000FF" === (*$1).style.color@Some.0)
  if not ("#569CD6" === (*$1).style.color@Some.0)
  if not ("#005CC5" === (*$1).style.color@Some.0)
  if not ("#FF00FF" === (*$1).style.color@Some.0)
  if not ("#FF79C6" === (*$1).style.color@Some.0)
  if not ("#D73A49" === (*$1).style.color@Some.0)
  if not ("#00FFFF" === (*$1).style.color@Some.0)
  if not ("#9CDCFE" === (*$1).style.color@Some.0)
  if not ("#2AA198" === (*$1).style.color@Some.0)
  do call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "37")), ";")
  ret cat(<"[", call "[T]::join"(rv(vpush(vpush(vnew(), "0"), "37")), ";"), "m", (*$1).text, "[0m">)
case
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not ((*$1).style.color is Some)
  ret (*$1).text

fn oak_highlight::exporters::HtmlExporter::new
case
  ret new "oak_highlight::exporters::HtmlExporter"{include_css: $0, inline_styles: $1}

fn oak_highlight::exporters::HtmlExporter::segment_to_html_class  [private]
  takes &oak_highlight::exporters::HtmlExporter; &oak_highlight::highlighter::HighlightSegment<>
  let %1 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), "bold"), "italic"), "underline")), " ")
  let %2 = call "[T]::join"(rv(vpush(vpush(vnew(), "bold"), "italic")), " ")
  let %3 = call "[T]::join"(rv(vpush(vpush(vnew(), "bold"), "underline")), " ")
  let %4 = call "[T]::join"(rv(vpush(vpush(vnew(), "italic"), "underline")), " ")
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  loop L0 | v0 from ""
  do %1
  ret cat(<"<span class=\"", %1, "\">", lv("L0", "v0"), "</span>">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if (call "str::chars"((*$1).text)[n("L0")] == 60)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&lt;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if not (call "str::chars"((*$1).text)[n("L0")] == 34)
  if not (call "str::chars"((*$1).text)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), call "char"(call "str::chars"((*$1).text)[n("L0")])>)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if not (call "str::chars"((*$1).text)[n("L0")] == 34)
  if (call "str::chars"((*$1).text)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&#39;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if (call "str::chars"((*$1).text)[n("L0")] == 34)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&quot;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if (call "str::chars"((*$1).text)[n("L0")] == 38)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&amp;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if (call "str::chars"((*$1).text)[n("L0")] == 62)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&gt;">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  loop L0 | v0 from ""
  do %2
  ret cat(<"<span class=\"", %2, "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  loop L0 | v0 from ""
  do %3
  ret cat(<"<span class=\"", %3, "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vnew(), "bold")), " ")
  ret cat(<"<span class=\"", call "[T]::join"(rv(vpush(vnew(), "bold")), " "), "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  loop L0 | v0 from ""
  do %4
  ret cat(<"<span class=\"", %4, "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vnew(), "italic")), " ")
  ret cat(<"<span class=\"", call "[T]::join"(rv(vpush(vnew(), "italic")), " "), "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  loop L0 | v0 from ""
  do call "[T]::join"(rv(vpush(vnew(), "underline")), " ")
  ret cat(<"<span class=\"", call "[T]::join"(rv(vpush(vnew(), "underline")), " "), "\">", lv("L0", "v0"), "</span>">)
case
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  loop L0 | v0 from ""
  ret lv("L0", "v0")

fn oak_highlight::exporters::HtmlExporter::segment_to_html_inline  [private]
  takes &oak_highlight::exporters::HtmlExporter; &oak_highlight::highlighter::HighlightSegment<>
  let %1 = cat(<"background-color: ", (*$1).style.background_color@Some.0>)
  let %2 = vpush(vpush(vnew(), cat(<"color: ", (*$1).style.color@Some.0>)), %1)
  let %3 = call "[T]::join"(rv(vpush(vpush(vpush(%2, "font-weight: bold"), "font-style: italic"), "text-decoration: underline")), "; ")
  let %4 = call "[T]::join"(rv(vpush(vpush(%2, "font-weight: bold"), "font-style: italic")), "; ")
  let %5 = call "[T]::join"(rv(vpush(vpush(%2, "font-weight: bold"), "text-decoration: underline")), "; ")
  let %6 = call "[T]::join"(rv(vpush(vpush(%2, "font-style: italic"), "text-decoration: underline")), "; ")
  let %7 = call "[T]::join"(rv(vpush(%2, "text-decoration: underline")), "; ")
  let %8 = vpush(vpush(vnew(), cat(<"color: ", (*$1).style.color@Some.0>)), "font-weight: bold")
  let %9 = call "[T]::join"(rv(vpush(vpush(%8, "font-style: italic"), "text-decoration: underline")), "; ")
  let %10 = call "[T]::join"(rv(vpush(%8, "text-decoration: underline")), "; ")
  let %11 = vpush(vpush(vnew(), cat(<"color: ", (*$1).style.color@Some.0>)), "font-style: italic")
  let %12 = call "[T]::join"(rv(vpush(%11, "text-decoration: underline")), "; ")
  let %13 = call "[T]::join"(rv(vpush(vpush(vnew(), cat(<"color: ", (*$1).style.color@Some.0>)), "text-decoration: underline")), "; ")
  let %14 = call "[T]::join"(rv(vpush(vnew(), cat(<"color: ", (*$1).style.color@Some.0>))), "; ")
  let %15 = vpush(vpush(vpush(vnew(), %1), "font-weight: bold"), "font-style: italic")
  let %16 = call "[T]::join"(rv(vpush(%15, "text-decoration: underline")), "; ")
  let %17 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), %1), "font-weight: bold"), "text-decoration: underline")), "; ")
  let %18 = call "[T]::join"(rv(vpush(vpush(vnew(), %1), "font-weight: bold")), "; ")
  let %19 = call "[T]::join"(rv(vpush(vpush(vpush(vnew(), %1), "font-style: italic"), "text-decoration: underline")), "; ")
  let %20 = call "[T]::join"(rv(vpush(vpush(vnew(), %1), "font-style: italic")), "; ")
  let %21 = call "[T]::join"(rv(vpush(vpush(vnew(), %1), "text-decoration: underline")), "; ")
  let %22 = vpush(vpush(vnew(), "font-weight: bold"), "font-style: italic")
  let %23 = call "[T]::join"(rv(vpush(%22, "text-decoration: underline")), "; ")
  let %24 = call "[T]::join"(rv(vpush(vpush(vnew(), "font-weight: bold"), "text-decoration: underline")), "; ")
  let %25 = call "[T]::join"(rv(vpush(vnew(), "font-weight: bold")), "; ")
  let %26 = call "[T]::join"(rv(vpush(vpush(vnew(), "font-style: italic"), "text-decoration: underline")), "; ")
  let %27 = call "[T]::join"(rv(vpush(vnew(), "font-style: italic")), "; ")
  let %28 = call "[T]::join"(rv(vpush(vnew(), "text-decoration: underline")), "; ")
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @0 | v0 from ""
  do %3
  ret cat(<"<span style=\"", %3, "\">", lv("L0", "v0"), "</span>">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if (call "str::chars"((*$1).text)[n("L0")] == 60)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&lt;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if not (call "str::chars"((*$1).text)[n("L0")] == 34)
  if not (call "str::chars"((*$1).text)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), call "char"(call "str::chars"((*$1).text)[n("L0")])>)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if not (call "str::chars"((*$1).text)[n("L0")] == 34)
  if (call "str::chars"((*$1).text)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&#39;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if not (call "str::chars"((*$1).text)[n("L0")] == 38)
  if (call "str::chars"((*$1).text)[n("L0")] == 34)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&quot;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if not (call "str::chars"((*$1).text)[n("L0")] == 62)
  if (call "str::chars"((*$1).text)[n("L0")] == 38)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&amp;">)
pass L0
  if (n("L0") < len(call "str::chars"((*$1).text)))
  if not (call "str::chars"((*$1).text)[n("L0")] == 60)
  if (call "str::chars"((*$1).text)[n("L0")] == 62)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&gt;">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @1 | v0 from ""
  do %4
  ret cat(<"<span style=\"", %4, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @2 | v0 from ""
  do %5
  ret cat(<"<span style=\"", %5, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @3 | v0 from ""
  do call "[T]::join"(rv(vpush(%2, "font-weight: bold")), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(vpush(%2, "font-weight: bold")), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @4 | v0 from ""
  do %6
  ret cat(<"<span style=\"", %6, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @5 | v0 from ""
  do call "[T]::join"(rv(vpush(%2, "font-style: italic")), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(vpush(%2, "font-style: italic")), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @6 | v0 from ""
  do %7
  ret cat(<"<span style=\"", %7, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @7 | v0 from ""
  do call "[T]::join"(rv(%2), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(%2), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @8 | v0 from ""
  do %9
  ret cat(<"<span style=\"", %9, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @9 | v0 from ""
  do call "[T]::join"(rv(vpush(%8, "font-style: italic")), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(vpush(%8, "font-style: italic")), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @10 | v0 from ""
  do %10
  ret cat(<"<span style=\"", %10, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @11 | v0 from ""
  do call "[T]::join"(rv(%8), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(%8), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @12 | v0 from ""
  do %12
  ret cat(<"<span style=\"", %12, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @13 | v0 from ""
  do call "[T]::join"(rv(%11), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(%11), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @14 | v0 from ""
  do %13
  ret cat(<"<span style=\"", %13, "\">", lv("L0", "v0"), "</span>">)
case
  if ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @15 | v0 from ""
  do %14
  ret cat(<"<span style=\"", %14, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @16 | v0 from ""
  do %16
  ret cat(<"<span style=\"", %16, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @17 | v0 from ""
  do call "[T]::join"(rv(%15), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(%15), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @18 | v0 from ""
  do %17
  ret cat(<"<span style=\"", %17, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @19 | v0 from ""
  do %18
  ret cat(<"<span style=\"", %18, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @20 | v0 from ""
  do %19
  ret cat(<"<span style=\"", %19, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @21 | v0 from ""
  do %20
  ret cat(<"<span style=\"", %20, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @22 | v0 from ""
  do %21
  ret cat(<"<span style=\"", %21, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @23 | v0 from ""
  do call "[T]::join"(rv(vpush(vnew(), %1)), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(vpush(vnew(), %1)), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @24 | v0 from ""
  do %23
  ret cat(<"<span style=\"", %23, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @25 | v0 from ""
  do call "[T]::join"(rv(%22), "; ")
  ret cat(<"<span style=\"", call "[T]::join"(rv(%22), "; "), "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @26 | v0 from ""
  do %24
  ret cat(<"<span style=\"", %24, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @27 | v0 from ""
  do %25
  ret cat(<"<span style=\"", %25, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @28 | v0 from ""
  do %26
  ret cat(<"<span style=\"", %26, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @29 | v0 from ""
  do %27
  ret cat(<"<span style=\"", %27, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @30 | v0 from ""
  do %28
  ret cat(<"<span style=\"", %28, "\">", lv("L0", "v0"), "</span>">)
case
  if not ((*$1).style.color is Some)
  if not ((*$1).style.background_color is Some)
  if not true((*$1).style.bold)
  if not true((*$1).style.italic)
  if not true((*$1).style.underline)
  if not (n("L0") < len(call "str::chars"((*$1).text)))
  loop L0 @31 | v0 from ""
  ret lv("L0", "v0")

fn oak_highlight::exporters::html_escape  [private]
  takes &str
case
  if not (n("L0") < len(call "str::chars"($0)))
  loop L0 | v0 from ""
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if (call "str::chars"($0)[n("L0")] == 60)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&lt;">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 60)
  if not (call "str::chars"($0)[n("L0")] == 62)
  if not (call "str::chars"($0)[n("L0")] == 38)
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), call "char"(call "str::chars"($0)[n("L0")])>)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 60)
  if not (call "str::chars"($0)[n("L0")] == 62)
  if not (call "str::chars"($0)[n("L0")] == 38)
  if not (call "str::chars"($0)[n("L0")] == 34)
  if (call "str::chars"($0)[n("L0")] == 39)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&#39;">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 60)
  if not (call "str::chars"($0)[n("L0")] == 62)
  if not (call "str::chars"($0)[n("L0")] == 38)
  if (call "str::chars"($0)[n("L0")] == 34)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&quot;">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 60)
  if not (call "str::chars"($0)[n("L0")] == 62)
  if (call "str::chars"($0)[n("L0")] == 38)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&amp;">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 60)
  if (call "str::chars"($0)[n("L0")] == 62)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "&gt;">)

fn oak_highlight::exporters::json_escape  [private]
  takes &str
  let %1 = true(call "char::is_control"(call "str::chars"($0)[n("L0")]))
case
  if not (n("L0") < len(call "str::chars"($0)))
  loop L0 | v0 from ""
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if (call "str::chars"($0)[n("L0")] == 34)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\\"">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if not (call "str::chars"($0)[n("L0")] == 12)
  if not (call "str::chars"($0)[n("L0")] == 10)
  if not (call "str::chars"($0)[n("L0")] == 13)
  if not (call "str::chars"($0)[n("L0")] == 9)
  if %1
  loop L0 | v0 from ""
  do call "char::is_control"(call "str::chars"($0)[n("L0")])
  then v0 := cat(<lv("L0", "v0"), "\\u", display('x:f69000020,w4', call "str::chars"($0)[n("L0")])>)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if not (call "str::chars"($0)[n("L0")] == 12)
  if not (call "str::chars"($0)[n("L0")] == 10)
  if not (call "str::chars"($0)[n("L0")] == 13)
  if not (call "str::chars"($0)[n("L0")] == 9)
  if not %1
  loop L0 | v0 from ""
  do call "char::is_control"(call "str::chars"($0)[n("L0")])
  then v0 := cat(<lv("L0", "v0"), call "char"(call "str::chars"($0)[n("L0")])>)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if not (call "str::chars"($0)[n("L0")] == 12)
  if not (call "str::chars"($0)[n("L0")] == 10)
  if not (call "str::chars"($0)[n("L0")] == 13)
  if (call "str::chars"($0)[n("L0")] == 9)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\t">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if not (call "str::chars"($0)[n("L0")] == 12)
  if not (call "str::chars"($0)[n("L0")] == 10)
  if (call "str::chars"($0)[n("L0")] == 13)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\r">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if not (call "str::chars"($0)[n("L0")] == 12)
  if (call "str::chars"($0)[n("L0")] == 10)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\n">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if not (call "str::chars"($0)[n("L0")] == 8)
  if (call "str::chars"($0)[n("L0")] == 12)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\f">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if not (call "str::chars"($0)[n("L0")] == 92)
  if (call "str::chars"($0)[n("L0")] == 8)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\b">)
pass L0
  if (n("L0") < len(call "str::chars"($0)))
  if not (call "str::chars"($0)[n("L0")] == 34)
  if (call "str::chars"($0)[n("L0")] == 92)
  loop L0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), "\\\\">)
