/* A command to be applied to files: transform [option] source target
 *
 * Writes the content of the source with a mark to the target; content with "REFUSE" is refused with status 3 before
 * anything is written, content with "BREAK" after one half has been written. With the option "quiet" errors in writing are
 * not reported by the status.
 */
#include <fcntl.h>
#include <string.h>
#include <unistd.h>

int
main (int argc, char **argv)
{
  static char b[1 << 20];
  size_t n = 4;
  ssize_t k;
  if (argc < 3)
    return 2;
  memcpy (b, "NEW:", 4);
  int in = open (argv[argc - 2], O_RDONLY);
  if (in < 0)
    return 4;
  while ((k = read (in, b + n, sizeof b - n - 1)) > 0)
    n += k;
  close (in);
  b[n] = 0;
  if (strstr (b, "REFUSE"))
    return 3;
  int out = open (argv[argc - 1], O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (out < 0)
    return 5;
  if (strstr (b, "BREAK"))
    {
      k = write (out, b, n / 2);
      return 6;
    }
  if (write (out, b, n / 2) != (ssize_t) (n / 2) || write (out, b + n / 2, n - n / 2) != (ssize_t) (n - n / 2))
    return 7;
  return close (out) ? 8 : 0;
}
