% Reads one line of Octave code at a time, runs it, reports the error identifier.
function l1srv()
  global X;
  while true
    ln = fgetl(stdin);
    if ! ischar(ln)
      return;
    end
    err = "";
    try
      eval(ln);
    catch e
      err = e.identifier;
      if isempty(err)
        err = ["?" strrep(e.message, "\n", " ")];
      end
    end
    printf("\n@@%s\n", err);
    fflush(stdout);
  end
end
